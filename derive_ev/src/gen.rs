// Written by gen.py; do not edit.
use super::*;

ethabi_contract::use_contract!(c0, "abi/c0.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c1 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c1.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c2 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c2.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c3 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c3.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c4, "abi/c4.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c5 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c5.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c6 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c6.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c7 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c7.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c8, "abi/c8.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c9 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c9.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c10 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c10.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c11 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c11.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c12, "abi/c12.json");

pub const ABIS: &[&[u8]] = &[
    include_bytes!("../abi/c0.json"),
    include_bytes!("../abi/c1.json"),
    include_bytes!("../abi/c2.json"),
    include_bytes!("../abi/c3.json"),
    include_bytes!("../abi/c4.json"),
    include_bytes!("../abi/c5.json"),
    include_bytes!("../abi/c6.json"),
    include_bytes!("../abi/c7.json"),
    include_bytes!("../abi/c8.json"),
    include_bytes!("../abi/c9.json"),
    include_bytes!("../abi/c10.json"),
    include_bytes!("../abi/c11.json"),
    include_bytes!("../abi/c12.json"),
];

fn p0(l: RawLog, t: &[Ty]) -> Out { c0::events::evt0::parse_log(l).map(|l| { let c0::logs::Evt0 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f0(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt0::filter(con::<Address>(c, 0)) }
fn p1(l: RawLog, t: &[Ty]) -> Out { c0::events::evt1::parse_log(l).map(|l| { let c0::logs::Evt1 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f1(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt1::filter() }
fn p2(l: RawLog, t: &[Ty]) -> Out { c0::events::evt2::parse_log(l).map(|l| { let c0::logs::Evt2 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f2(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt2::filter(con::<bool>(c, 0)) }
fn p3(l: RawLog, t: &[Ty]) -> Out { c0::events::evt3::parse_log(l).map(|l| { let c0::logs::Evt3 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f3(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt3::filter() }
fn p4(l: RawLog, _: &[Ty]) -> Out { c0::events::evt4::parse_log(l).map(|l| { let c0::logs::Evt4 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f4(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt4::filter(con::<String>(c, 0)) }
fn p5(l: RawLog, t: &[Ty]) -> Out { c0::events::evt5::parse_log(l).map(|l| { let c0::logs::Evt5 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f5(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt5::filter() }
fn p6(l: RawLog, _: &[Ty]) -> Out { c0::events::evt6::parse_log(l).map(|l| { let c0::logs::Evt6 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f6(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt6::filter(con::<Vec<u8>>(c, 0)) }
fn p7(l: RawLog, t: &[Ty]) -> Out { c0::events::evt7::parse_log(l).map(|l| { let c0::logs::Evt7 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f7(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt7::filter() }
fn p8(l: RawLog, t: &[Ty]) -> Out { c0::events::evt8::parse_log(l).map(|l| { let c0::logs::Evt8 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f8(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt8::filter(con::<Uint>(c, 0)) }
fn p9(l: RawLog, t: &[Ty]) -> Out { c0::events::evt9::parse_log(l).map(|l| { let c0::logs::Evt9 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f9(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt9::filter() }
fn p10(l: RawLog, t: &[Ty]) -> Out { c0::events::evt10::parse_log(l).map(|l| { let c0::logs::Evt10 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f10(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt10::filter(con::<Uint>(c, 0)) }
fn p11(l: RawLog, t: &[Ty]) -> Out { c0::events::evt11::parse_log(l).map(|l| { let c0::logs::Evt11 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f11(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt11::filter() }
fn p12(l: RawLog, t: &[Ty]) -> Out { c0::events::evt12::parse_log(l).map(|l| { let c0::logs::Evt12 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f12(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt12::filter(con::<Uint>(c, 0)) }
fn p13(l: RawLog, t: &[Ty]) -> Out { c0::events::evt13::parse_log(l).map(|l| { let c0::logs::Evt13 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f13(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt13::filter() }
fn p14(l: RawLog, t: &[Ty]) -> Out { c0::events::evt14::parse_log(l).map(|l| { let c0::logs::Evt14 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f14(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt14::filter(con::<Uint>(c, 0)) }
fn p15(l: RawLog, t: &[Ty]) -> Out { c0::events::evt15::parse_log(l).map(|l| { let c0::logs::Evt15 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f15(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt15::filter() }
fn p16(l: RawLog, t: &[Ty]) -> Out { c0::events::evt16::parse_log(l).map(|l| { let c0::logs::Evt16 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f16(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt16::filter(con::<Uint>(c, 0)) }
fn p17(l: RawLog, t: &[Ty]) -> Out { c0::events::evt17::parse_log(l).map(|l| { let c0::logs::Evt17 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f17(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt17::filter() }
fn p18(l: RawLog, t: &[Ty]) -> Out { c0::events::evt18::parse_log(l).map(|l| { let c0::logs::Evt18 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f18(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt18::filter(con::<Uint>(c, 0)) }
fn p19(l: RawLog, t: &[Ty]) -> Out { c0::events::evt19::parse_log(l).map(|l| { let c0::logs::Evt19 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f19(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt19::filter() }
fn p20(l: RawLog, t: &[Ty]) -> Out { c0::events::evt20::parse_log(l).map(|l| { let c0::logs::Evt20 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f20(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt20::filter(con::<Uint>(c, 0)) }
fn p21(l: RawLog, t: &[Ty]) -> Out { c0::events::evt21::parse_log(l).map(|l| { let c0::logs::Evt21 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f21(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt21::filter() }
fn p22(l: RawLog, t: &[Ty]) -> Out { c0::events::evt22::parse_log(l).map(|l| { let c0::logs::Evt22 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f22(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt22::filter(con::<Uint>(c, 0)) }
fn p23(l: RawLog, t: &[Ty]) -> Out { c0::events::evt23::parse_log(l).map(|l| { let c0::logs::Evt23 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f23(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt23::filter() }
fn p24(l: RawLog, t: &[Ty]) -> Out { c0::events::evt24::parse_log(l).map(|l| { let c0::logs::Evt24 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f24(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt24::filter(con::<Uint>(c, 0)) }
fn p25(l: RawLog, t: &[Ty]) -> Out { c0::events::evt25::parse_log(l).map(|l| { let c0::logs::Evt25 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f25(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt25::filter() }
fn p26(l: RawLog, t: &[Ty]) -> Out { c0::events::evt26::parse_log(l).map(|l| { let c0::logs::Evt26 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f26(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt26::filter(con::<Uint>(c, 0)) }
fn p27(l: RawLog, t: &[Ty]) -> Out { c0::events::evt27::parse_log(l).map(|l| { let c0::logs::Evt27 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f27(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt27::filter() }
fn p28(l: RawLog, t: &[Ty]) -> Out { c0::events::evt28::parse_log(l).map(|l| { let c0::logs::Evt28 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f28(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt28::filter(con::<Uint>(c, 0)) }
fn p29(l: RawLog, t: &[Ty]) -> Out { c0::events::evt29::parse_log(l).map(|l| { let c0::logs::Evt29 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f29(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt29::filter() }
fn p30(l: RawLog, t: &[Ty]) -> Out { c0::events::evt30::parse_log(l).map(|l| { let c0::logs::Evt30 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f30(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt30::filter(con::<Uint>(c, 0)) }
fn p31(l: RawLog, t: &[Ty]) -> Out { c0::events::evt31::parse_log(l).map(|l| { let c0::logs::Evt31 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f31(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt31::filter() }
fn p32(l: RawLog, t: &[Ty]) -> Out { c0::events::evt32::parse_log(l).map(|l| { let c0::logs::Evt32 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f32(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt32::filter(con::<Uint>(c, 0)) }
fn p33(l: RawLog, t: &[Ty]) -> Out { c0::events::evt33::parse_log(l).map(|l| { let c0::logs::Evt33 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f33(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt33::filter() }
fn p34(l: RawLog, t: &[Ty]) -> Out { c0::events::evt34::parse_log(l).map(|l| { let c0::logs::Evt34 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f34(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt34::filter(con::<Uint>(c, 0)) }
fn p35(l: RawLog, t: &[Ty]) -> Out { c0::events::evt35::parse_log(l).map(|l| { let c0::logs::Evt35 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f35(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt35::filter() }
fn p36(l: RawLog, t: &[Ty]) -> Out { c0::events::evt36::parse_log(l).map(|l| { let c0::logs::Evt36 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f36(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt36::filter(con::<Uint>(c, 0)) }
fn p37(l: RawLog, t: &[Ty]) -> Out { c0::events::evt37::parse_log(l).map(|l| { let c0::logs::Evt37 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f37(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt37::filter() }
fn p38(l: RawLog, t: &[Ty]) -> Out { c0::events::evt38::parse_log(l).map(|l| { let c0::logs::Evt38 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f38(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt38::filter(con::<Uint>(c, 0)) }
fn p39(l: RawLog, t: &[Ty]) -> Out { c0::events::evt39::parse_log(l).map(|l| { let c0::logs::Evt39 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f39(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt39::filter() }
fn p40(l: RawLog, t: &[Ty]) -> Out { c0::events::evt40::parse_log(l).map(|l| { let c0::logs::Evt40 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f40(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt40::filter(con::<Uint>(c, 0)) }
fn p41(l: RawLog, t: &[Ty]) -> Out { c0::events::evt41::parse_log(l).map(|l| { let c0::logs::Evt41 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f41(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt41::filter() }
fn p42(l: RawLog, t: &[Ty]) -> Out { c0::events::evt42::parse_log(l).map(|l| { let c0::logs::Evt42 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f42(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt42::filter(con::<Uint>(c, 0)) }
fn p43(l: RawLog, t: &[Ty]) -> Out { c0::events::evt43::parse_log(l).map(|l| { let c0::logs::Evt43 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f43(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt43::filter() }
fn p44(l: RawLog, t: &[Ty]) -> Out { c0::events::evt44::parse_log(l).map(|l| { let c0::logs::Evt44 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f44(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt44::filter(con::<Uint>(c, 0)) }
fn p45(l: RawLog, t: &[Ty]) -> Out { c0::events::evt45::parse_log(l).map(|l| { let c0::logs::Evt45 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f45(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt45::filter() }
fn p46(l: RawLog, t: &[Ty]) -> Out { c0::events::evt46::parse_log(l).map(|l| { let c0::logs::Evt46 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f46(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt46::filter(con::<Uint>(c, 0)) }
fn p47(l: RawLog, t: &[Ty]) -> Out { c0::events::evt47::parse_log(l).map(|l| { let c0::logs::Evt47 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f47(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt47::filter() }
fn p48(l: RawLog, t: &[Ty]) -> Out { c0::events::evt48::parse_log(l).map(|l| { let c0::logs::Evt48 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f48(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt48::filter(con::<Uint>(c, 0)) }
fn p49(l: RawLog, t: &[Ty]) -> Out { c0::events::evt49::parse_log(l).map(|l| { let c0::logs::Evt49 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f49(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt49::filter() }
fn p50(l: RawLog, t: &[Ty]) -> Out { c0::events::evt50::parse_log(l).map(|l| { let c0::logs::Evt50 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f50(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt50::filter(con::<Uint>(c, 0)) }
fn p51(l: RawLog, t: &[Ty]) -> Out { c0::events::evt51::parse_log(l).map(|l| { let c0::logs::Evt51 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f51(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt51::filter() }
fn p52(l: RawLog, t: &[Ty]) -> Out { c0::events::evt52::parse_log(l).map(|l| { let c0::logs::Evt52 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f52(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt52::filter(con::<Uint>(c, 0)) }
fn p53(l: RawLog, t: &[Ty]) -> Out { c0::events::evt53::parse_log(l).map(|l| { let c0::logs::Evt53 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f53(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt53::filter() }
fn p54(l: RawLog, t: &[Ty]) -> Out { c0::events::evt54::parse_log(l).map(|l| { let c0::logs::Evt54 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f54(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt54::filter(con::<Uint>(c, 0)) }
fn p55(l: RawLog, t: &[Ty]) -> Out { c0::events::evt55::parse_log(l).map(|l| { let c0::logs::Evt55 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f55(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt55::filter() }
fn p56(l: RawLog, t: &[Ty]) -> Out { c0::events::evt56::parse_log(l).map(|l| { let c0::logs::Evt56 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f56(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt56::filter(con::<Uint>(c, 0)) }
fn p57(l: RawLog, t: &[Ty]) -> Out { c0::events::evt57::parse_log(l).map(|l| { let c0::logs::Evt57 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f57(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt57::filter() }
fn p58(l: RawLog, t: &[Ty]) -> Out { c0::events::evt58::parse_log(l).map(|l| { let c0::logs::Evt58 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f58(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt58::filter(con::<Uint>(c, 0)) }
fn p59(l: RawLog, t: &[Ty]) -> Out { c0::events::evt59::parse_log(l).map(|l| { let c0::logs::Evt59 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f59(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt59::filter() }
fn p60(l: RawLog, t: &[Ty]) -> Out { c0::events::evt60::parse_log(l).map(|l| { let c0::logs::Evt60 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f60(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt60::filter(con::<Uint>(c, 0)) }
fn p61(l: RawLog, t: &[Ty]) -> Out { c0::events::evt61::parse_log(l).map(|l| { let c0::logs::Evt61 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f61(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt61::filter() }
fn p62(l: RawLog, t: &[Ty]) -> Out { c0::events::evt62::parse_log(l).map(|l| { let c0::logs::Evt62 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f62(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt62::filter(con::<Uint>(c, 0)) }
fn p63(l: RawLog, t: &[Ty]) -> Out { c0::events::evt63::parse_log(l).map(|l| { let c0::logs::Evt63 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f63(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt63::filter() }
fn p64(l: RawLog, t: &[Ty]) -> Out { c0::events::evt64::parse_log(l).map(|l| { let c0::logs::Evt64 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f64(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt64::filter(con::<Uint>(c, 0)) }
fn p65(l: RawLog, t: &[Ty]) -> Out { c0::events::evt65::parse_log(l).map(|l| { let c0::logs::Evt65 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f65(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt65::filter() }
fn p66(l: RawLog, t: &[Ty]) -> Out { c0::events::evt66::parse_log(l).map(|l| { let c0::logs::Evt66 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f66(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt66::filter(con::<Uint>(c, 0)) }
fn p67(l: RawLog, t: &[Ty]) -> Out { c0::events::evt67::parse_log(l).map(|l| { let c0::logs::Evt67 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f67(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt67::filter() }
fn p68(l: RawLog, t: &[Ty]) -> Out { c0::events::evt68::parse_log(l).map(|l| { let c0::logs::Evt68 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f68(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt68::filter(con::<Uint>(c, 0)) }
fn p69(l: RawLog, t: &[Ty]) -> Out { c0::events::evt69::parse_log(l).map(|l| { let c0::logs::Evt69 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f69(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt69::filter() }
fn p70(l: RawLog, t: &[Ty]) -> Out { c0::events::evt70::parse_log(l).map(|l| { let c0::logs::Evt70 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f70(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt70::filter(con::<Uint>(c, 0)) }
fn p71(l: RawLog, t: &[Ty]) -> Out { c0::events::evt71::parse_log(l).map(|l| { let c0::logs::Evt71 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f71(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt71::filter() }
fn p72(l: RawLog, t: &[Ty]) -> Out { c0::events::evt72::parse_log(l).map(|l| { let c0::logs::Evt72 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f72(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt72::filter(con::<Uint>(c, 0)) }
fn p73(l: RawLog, t: &[Ty]) -> Out { c0::events::evt73::parse_log(l).map(|l| { let c0::logs::Evt73 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f73(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt73::filter() }
fn p74(l: RawLog, t: &[Ty]) -> Out { c0::events::evt74::parse_log(l).map(|l| { let c0::logs::Evt74 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f74(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt74::filter(con::<Uint>(c, 0)) }
fn p75(l: RawLog, t: &[Ty]) -> Out { c0::events::evt75::parse_log(l).map(|l| { let c0::logs::Evt75 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f75(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt75::filter() }
fn p76(l: RawLog, t: &[Ty]) -> Out { c0::events::evt76::parse_log(l).map(|l| { let c0::logs::Evt76 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f76(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt76::filter(con::<Uint>(c, 0)) }
fn p77(l: RawLog, t: &[Ty]) -> Out { c0::events::evt77::parse_log(l).map(|l| { let c0::logs::Evt77 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f77(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt77::filter() }
fn p78(l: RawLog, t: &[Ty]) -> Out { c0::events::evt78::parse_log(l).map(|l| { let c0::logs::Evt78 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f78(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt78::filter(con::<Uint>(c, 0)) }
fn p79(l: RawLog, t: &[Ty]) -> Out { c0::events::evt79::parse_log(l).map(|l| { let c0::logs::Evt79 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f79(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt79::filter() }
fn p80(l: RawLog, t: &[Ty]) -> Out { c0::events::evt80::parse_log(l).map(|l| { let c0::logs::Evt80 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f80(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt80::filter(con::<Uint>(c, 0)) }
fn p81(l: RawLog, t: &[Ty]) -> Out { c0::events::evt81::parse_log(l).map(|l| { let c0::logs::Evt81 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f81(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt81::filter() }
fn p82(l: RawLog, t: &[Ty]) -> Out { c0::events::evt82::parse_log(l).map(|l| { let c0::logs::Evt82 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f82(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt82::filter(con::<Uint>(c, 0)) }
fn p83(l: RawLog, t: &[Ty]) -> Out { c0::events::evt83::parse_log(l).map(|l| { let c0::logs::Evt83 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f83(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt83::filter() }
fn p84(l: RawLog, t: &[Ty]) -> Out { c0::events::evt84::parse_log(l).map(|l| { let c0::logs::Evt84 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f84(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt84::filter(con::<Uint>(c, 0)) }
fn p85(l: RawLog, t: &[Ty]) -> Out { c0::events::evt85::parse_log(l).map(|l| { let c0::logs::Evt85 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f85(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt85::filter() }
fn p86(l: RawLog, t: &[Ty]) -> Out { c0::events::evt86::parse_log(l).map(|l| { let c0::logs::Evt86 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f86(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt86::filter(con::<Uint>(c, 0)) }
fn p87(l: RawLog, t: &[Ty]) -> Out { c0::events::evt87::parse_log(l).map(|l| { let c0::logs::Evt87 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f87(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt87::filter() }
fn p88(l: RawLog, t: &[Ty]) -> Out { c0::events::evt88::parse_log(l).map(|l| { let c0::logs::Evt88 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f88(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt88::filter(con::<Uint>(c, 0)) }
fn p89(l: RawLog, t: &[Ty]) -> Out { c0::events::evt89::parse_log(l).map(|l| { let c0::logs::Evt89 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f89(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt89::filter() }
fn p90(l: RawLog, t: &[Ty]) -> Out { c0::events::evt90::parse_log(l).map(|l| { let c0::logs::Evt90 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f90(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt90::filter(con::<Uint>(c, 0)) }
fn p91(l: RawLog, t: &[Ty]) -> Out { c0::events::evt91::parse_log(l).map(|l| { let c0::logs::Evt91 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f91(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt91::filter() }
fn p92(l: RawLog, t: &[Ty]) -> Out { c0::events::evt92::parse_log(l).map(|l| { let c0::logs::Evt92 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f92(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt92::filter(con::<Uint>(c, 0)) }
fn p93(l: RawLog, t: &[Ty]) -> Out { c0::events::evt93::parse_log(l).map(|l| { let c0::logs::Evt93 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f93(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt93::filter() }
fn p94(l: RawLog, t: &[Ty]) -> Out { c0::events::evt94::parse_log(l).map(|l| { let c0::logs::Evt94 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f94(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt94::filter(con::<Uint>(c, 0)) }
fn p95(l: RawLog, t: &[Ty]) -> Out { c0::events::evt95::parse_log(l).map(|l| { let c0::logs::Evt95 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f95(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt95::filter() }
fn p96(l: RawLog, t: &[Ty]) -> Out { c0::events::evt96::parse_log(l).map(|l| { let c0::logs::Evt96 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f96(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt96::filter(con::<Uint>(c, 0)) }
fn p97(l: RawLog, t: &[Ty]) -> Out { c0::events::evt97::parse_log(l).map(|l| { let c0::logs::Evt97 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f97(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt97::filter() }
fn p98(l: RawLog, t: &[Ty]) -> Out { c0::events::evt98::parse_log(l).map(|l| { let c0::logs::Evt98 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f98(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt98::filter(con::<Uint>(c, 0)) }
fn p99(l: RawLog, t: &[Ty]) -> Out { c0::events::evt99::parse_log(l).map(|l| { let c0::logs::Evt99 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f99(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt99::filter() }
fn p100(l: RawLog, t: &[Ty]) -> Out { c0::events::evt100::parse_log(l).map(|l| { let c0::logs::Evt100 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f100(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt100::filter(con::<Uint>(c, 0)) }
fn p101(l: RawLog, t: &[Ty]) -> Out { c0::events::evt101::parse_log(l).map(|l| { let c0::logs::Evt101 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f101(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt101::filter() }
fn p102(l: RawLog, t: &[Ty]) -> Out { c0::events::evt102::parse_log(l).map(|l| { let c0::logs::Evt102 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f102(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt102::filter(con::<Uint>(c, 0)) }
fn p103(l: RawLog, t: &[Ty]) -> Out { c0::events::evt103::parse_log(l).map(|l| { let c0::logs::Evt103 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f103(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt103::filter() }
fn p104(l: RawLog, t: &[Ty]) -> Out { c0::events::evt104::parse_log(l).map(|l| { let c0::logs::Evt104 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f104(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt104::filter(con::<Uint>(c, 0)) }
fn p105(l: RawLog, t: &[Ty]) -> Out { c0::events::evt105::parse_log(l).map(|l| { let c0::logs::Evt105 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f105(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt105::filter() }
fn p106(l: RawLog, t: &[Ty]) -> Out { c0::events::evt106::parse_log(l).map(|l| { let c0::logs::Evt106 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f106(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt106::filter(con::<Uint>(c, 0)) }
fn p107(l: RawLog, t: &[Ty]) -> Out { c0::events::evt107::parse_log(l).map(|l| { let c0::logs::Evt107 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f107(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt107::filter() }
fn p108(l: RawLog, t: &[Ty]) -> Out { c0::events::evt108::parse_log(l).map(|l| { let c0::logs::Evt108 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f108(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt108::filter(con::<Uint>(c, 0)) }
fn p109(l: RawLog, t: &[Ty]) -> Out { c0::events::evt109::parse_log(l).map(|l| { let c0::logs::Evt109 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f109(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt109::filter() }
fn p110(l: RawLog, t: &[Ty]) -> Out { c0::events::evt110::parse_log(l).map(|l| { let c0::logs::Evt110 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f110(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt110::filter(con::<Uint>(c, 0)) }
fn p111(l: RawLog, t: &[Ty]) -> Out { c0::events::evt111::parse_log(l).map(|l| { let c0::logs::Evt111 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f111(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt111::filter() }
fn p112(l: RawLog, t: &[Ty]) -> Out { c0::events::evt112::parse_log(l).map(|l| { let c0::logs::Evt112 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f112(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt112::filter(con::<Uint>(c, 0)) }
fn p113(l: RawLog, t: &[Ty]) -> Out { c0::events::evt113::parse_log(l).map(|l| { let c0::logs::Evt113 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f113(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt113::filter() }
fn p114(l: RawLog, t: &[Ty]) -> Out { c0::events::evt114::parse_log(l).map(|l| { let c0::logs::Evt114 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f114(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt114::filter(con::<Uint>(c, 0)) }
fn p115(l: RawLog, t: &[Ty]) -> Out { c0::events::evt115::parse_log(l).map(|l| { let c0::logs::Evt115 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f115(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt115::filter() }
fn p116(l: RawLog, t: &[Ty]) -> Out { c0::events::evt116::parse_log(l).map(|l| { let c0::logs::Evt116 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f116(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt116::filter(con::<Uint>(c, 0)) }
fn p117(l: RawLog, t: &[Ty]) -> Out { c0::events::evt117::parse_log(l).map(|l| { let c0::logs::Evt117 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f117(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt117::filter() }
fn p118(l: RawLog, t: &[Ty]) -> Out { c0::events::evt118::parse_log(l).map(|l| { let c0::logs::Evt118 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f118(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt118::filter(con::<Uint>(c, 0)) }
fn p119(l: RawLog, t: &[Ty]) -> Out { c0::events::evt119::parse_log(l).map(|l| { let c0::logs::Evt119 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f119(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt119::filter() }
fn p120(l: RawLog, t: &[Ty]) -> Out { c0::events::evt120::parse_log(l).map(|l| { let c0::logs::Evt120 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f120(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt120::filter(con::<Uint>(c, 0)) }
fn p121(l: RawLog, t: &[Ty]) -> Out { c0::events::evt121::parse_log(l).map(|l| { let c0::logs::Evt121 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f121(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt121::filter() }
fn p122(l: RawLog, t: &[Ty]) -> Out { c0::events::evt122::parse_log(l).map(|l| { let c0::logs::Evt122 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f122(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt122::filter(con::<Uint>(c, 0)) }
fn p123(l: RawLog, t: &[Ty]) -> Out { c0::events::evt123::parse_log(l).map(|l| { let c0::logs::Evt123 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f123(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt123::filter() }
fn p124(l: RawLog, t: &[Ty]) -> Out { c0::events::evt124::parse_log(l).map(|l| { let c0::logs::Evt124 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f124(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt124::filter(con::<Uint>(c, 0)) }
fn p125(l: RawLog, t: &[Ty]) -> Out { c0::events::evt125::parse_log(l).map(|l| { let c0::logs::Evt125 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f125(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt125::filter() }
fn p126(l: RawLog, t: &[Ty]) -> Out { c0::events::evt126::parse_log(l).map(|l| { let c0::logs::Evt126 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f126(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt126::filter(con::<Uint>(c, 0)) }
fn p127(l: RawLog, t: &[Ty]) -> Out { c0::events::evt127::parse_log(l).map(|l| { let c0::logs::Evt127 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f127(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt127::filter() }
fn p128(l: RawLog, t: &[Ty]) -> Out { c0::events::evt128::parse_log(l).map(|l| { let c0::logs::Evt128 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f128(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt128::filter(con::<Uint>(c, 0)) }
fn p129(l: RawLog, t: &[Ty]) -> Out { c0::events::evt129::parse_log(l).map(|l| { let c0::logs::Evt129 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f129(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt129::filter() }
fn p130(l: RawLog, t: &[Ty]) -> Out { c0::events::evt130::parse_log(l).map(|l| { let c0::logs::Evt130 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f130(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt130::filter(con::<Uint>(c, 0)) }
fn p131(l: RawLog, t: &[Ty]) -> Out { c0::events::evt131::parse_log(l).map(|l| { let c0::logs::Evt131 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f131(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt131::filter() }
fn p132(l: RawLog, t: &[Ty]) -> Out { c0::events::evt132::parse_log(l).map(|l| { let c0::logs::Evt132 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f132(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt132::filter(con::<Uint>(c, 0)) }
fn p133(l: RawLog, t: &[Ty]) -> Out { c0::events::evt133::parse_log(l).map(|l| { let c0::logs::Evt133 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f133(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt133::filter() }
fn p134(l: RawLog, t: &[Ty]) -> Out { c0::events::evt134::parse_log(l).map(|l| { let c0::logs::Evt134 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f134(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt134::filter(con::<Uint>(c, 0)) }
fn p135(l: RawLog, t: &[Ty]) -> Out { c0::events::evt135::parse_log(l).map(|l| { let c0::logs::Evt135 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f135(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt135::filter() }
fn p136(l: RawLog, t: &[Ty]) -> Out { c0::events::evt136::parse_log(l).map(|l| { let c0::logs::Evt136 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f136(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt136::filter(con::<[u8; 1]>(c, 0)) }
fn p137(l: RawLog, t: &[Ty]) -> Out { c0::events::evt137::parse_log(l).map(|l| { let c0::logs::Evt137 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f137(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt137::filter() }
fn p138(l: RawLog, t: &[Ty]) -> Out { c0::events::evt138::parse_log(l).map(|l| { let c0::logs::Evt138 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f138(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt138::filter(con::<[u8; 2]>(c, 0)) }
fn p139(l: RawLog, t: &[Ty]) -> Out { c0::events::evt139::parse_log(l).map(|l| { let c0::logs::Evt139 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f139(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt139::filter() }
fn p140(l: RawLog, t: &[Ty]) -> Out { c0::events::evt140::parse_log(l).map(|l| { let c0::logs::Evt140 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f140(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt140::filter(con::<[u8; 3]>(c, 0)) }
fn p141(l: RawLog, t: &[Ty]) -> Out { c0::events::evt141::parse_log(l).map(|l| { let c0::logs::Evt141 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f141(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt141::filter() }
fn p142(l: RawLog, t: &[Ty]) -> Out { c0::events::evt142::parse_log(l).map(|l| { let c0::logs::Evt142 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f142(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt142::filter(con::<[u8; 4]>(c, 0)) }
fn p143(l: RawLog, t: &[Ty]) -> Out { c0::events::evt143::parse_log(l).map(|l| { let c0::logs::Evt143 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f143(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt143::filter() }
fn p144(l: RawLog, t: &[Ty]) -> Out { c0::events::evt144::parse_log(l).map(|l| { let c0::logs::Evt144 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f144(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt144::filter(con::<[u8; 5]>(c, 0)) }
fn p145(l: RawLog, t: &[Ty]) -> Out { c0::events::evt145::parse_log(l).map(|l| { let c0::logs::Evt145 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f145(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt145::filter() }
fn p146(l: RawLog, t: &[Ty]) -> Out { c0::events::evt146::parse_log(l).map(|l| { let c0::logs::Evt146 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f146(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt146::filter(con::<[u8; 6]>(c, 0)) }
fn p147(l: RawLog, t: &[Ty]) -> Out { c0::events::evt147::parse_log(l).map(|l| { let c0::logs::Evt147 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f147(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt147::filter() }
fn p148(l: RawLog, t: &[Ty]) -> Out { c0::events::evt148::parse_log(l).map(|l| { let c0::logs::Evt148 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f148(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt148::filter(con::<[u8; 7]>(c, 0)) }
fn p149(l: RawLog, t: &[Ty]) -> Out { c0::events::evt149::parse_log(l).map(|l| { let c0::logs::Evt149 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f149(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt149::filter() }
fn p150(l: RawLog, t: &[Ty]) -> Out { c0::events::evt150::parse_log(l).map(|l| { let c0::logs::Evt150 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f150(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt150::filter(con::<[u8; 8]>(c, 0)) }
fn p151(l: RawLog, t: &[Ty]) -> Out { c0::events::evt151::parse_log(l).map(|l| { let c0::logs::Evt151 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f151(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt151::filter() }
fn p152(l: RawLog, t: &[Ty]) -> Out { c0::events::evt152::parse_log(l).map(|l| { let c0::logs::Evt152 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f152(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt152::filter(con::<[u8; 9]>(c, 0)) }
fn p153(l: RawLog, t: &[Ty]) -> Out { c0::events::evt153::parse_log(l).map(|l| { let c0::logs::Evt153 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f153(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt153::filter() }
fn p154(l: RawLog, t: &[Ty]) -> Out { c0::events::evt154::parse_log(l).map(|l| { let c0::logs::Evt154 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f154(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt154::filter(con::<[u8; 10]>(c, 0)) }
fn p155(l: RawLog, t: &[Ty]) -> Out { c0::events::evt155::parse_log(l).map(|l| { let c0::logs::Evt155 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f155(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt155::filter() }
fn p156(l: RawLog, t: &[Ty]) -> Out { c0::events::evt156::parse_log(l).map(|l| { let c0::logs::Evt156 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f156(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt156::filter(con::<[u8; 11]>(c, 0)) }
fn p157(l: RawLog, t: &[Ty]) -> Out { c0::events::evt157::parse_log(l).map(|l| { let c0::logs::Evt157 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f157(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt157::filter() }
fn p158(l: RawLog, t: &[Ty]) -> Out { c0::events::evt158::parse_log(l).map(|l| { let c0::logs::Evt158 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f158(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt158::filter(con::<[u8; 12]>(c, 0)) }
fn p159(l: RawLog, t: &[Ty]) -> Out { c0::events::evt159::parse_log(l).map(|l| { let c0::logs::Evt159 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f159(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt159::filter() }
fn p160(l: RawLog, t: &[Ty]) -> Out { c0::events::evt160::parse_log(l).map(|l| { let c0::logs::Evt160 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f160(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt160::filter(con::<[u8; 13]>(c, 0)) }
fn p161(l: RawLog, t: &[Ty]) -> Out { c0::events::evt161::parse_log(l).map(|l| { let c0::logs::Evt161 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f161(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt161::filter() }
fn p162(l: RawLog, t: &[Ty]) -> Out { c0::events::evt162::parse_log(l).map(|l| { let c0::logs::Evt162 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f162(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt162::filter(con::<[u8; 14]>(c, 0)) }
fn p163(l: RawLog, t: &[Ty]) -> Out { c0::events::evt163::parse_log(l).map(|l| { let c0::logs::Evt163 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f163(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt163::filter() }
fn p164(l: RawLog, t: &[Ty]) -> Out { c0::events::evt164::parse_log(l).map(|l| { let c0::logs::Evt164 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f164(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt164::filter(con::<[u8; 15]>(c, 0)) }
fn p165(l: RawLog, t: &[Ty]) -> Out { c0::events::evt165::parse_log(l).map(|l| { let c0::logs::Evt165 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f165(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt165::filter() }
fn p166(l: RawLog, t: &[Ty]) -> Out { c0::events::evt166::parse_log(l).map(|l| { let c0::logs::Evt166 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f166(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt166::filter(con::<[u8; 16]>(c, 0)) }
fn p167(l: RawLog, t: &[Ty]) -> Out { c0::events::evt167::parse_log(l).map(|l| { let c0::logs::Evt167 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f167(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt167::filter() }
fn p168(l: RawLog, t: &[Ty]) -> Out { c0::events::evt168::parse_log(l).map(|l| { let c0::logs::Evt168 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f168(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt168::filter(con::<[u8; 17]>(c, 0)) }
fn p169(l: RawLog, t: &[Ty]) -> Out { c0::events::evt169::parse_log(l).map(|l| { let c0::logs::Evt169 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f169(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt169::filter() }
fn p170(l: RawLog, t: &[Ty]) -> Out { c0::events::evt170::parse_log(l).map(|l| { let c0::logs::Evt170 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f170(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt170::filter(con::<[u8; 18]>(c, 0)) }
fn p171(l: RawLog, t: &[Ty]) -> Out { c0::events::evt171::parse_log(l).map(|l| { let c0::logs::Evt171 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f171(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt171::filter() }
fn p172(l: RawLog, t: &[Ty]) -> Out { c0::events::evt172::parse_log(l).map(|l| { let c0::logs::Evt172 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f172(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt172::filter(con::<[u8; 19]>(c, 0)) }
fn p173(l: RawLog, t: &[Ty]) -> Out { c0::events::evt173::parse_log(l).map(|l| { let c0::logs::Evt173 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f173(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt173::filter() }
fn p174(l: RawLog, t: &[Ty]) -> Out { c0::events::evt174::parse_log(l).map(|l| { let c0::logs::Evt174 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f174(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt174::filter(con::<[u8; 20]>(c, 0)) }
fn p175(l: RawLog, t: &[Ty]) -> Out { c0::events::evt175::parse_log(l).map(|l| { let c0::logs::Evt175 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f175(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt175::filter() }
fn p176(l: RawLog, t: &[Ty]) -> Out { c0::events::evt176::parse_log(l).map(|l| { let c0::logs::Evt176 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f176(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt176::filter(con::<[u8; 21]>(c, 0)) }
fn p177(l: RawLog, t: &[Ty]) -> Out { c0::events::evt177::parse_log(l).map(|l| { let c0::logs::Evt177 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f177(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt177::filter() }
fn p178(l: RawLog, t: &[Ty]) -> Out { c0::events::evt178::parse_log(l).map(|l| { let c0::logs::Evt178 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f178(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt178::filter(con::<[u8; 22]>(c, 0)) }
fn p179(l: RawLog, t: &[Ty]) -> Out { c0::events::evt179::parse_log(l).map(|l| { let c0::logs::Evt179 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f179(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt179::filter() }
fn p180(l: RawLog, t: &[Ty]) -> Out { c0::events::evt180::parse_log(l).map(|l| { let c0::logs::Evt180 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f180(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt180::filter(con::<[u8; 23]>(c, 0)) }
fn p181(l: RawLog, t: &[Ty]) -> Out { c0::events::evt181::parse_log(l).map(|l| { let c0::logs::Evt181 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f181(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt181::filter() }
fn p182(l: RawLog, t: &[Ty]) -> Out { c0::events::evt182::parse_log(l).map(|l| { let c0::logs::Evt182 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f182(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt182::filter(con::<[u8; 24]>(c, 0)) }
fn p183(l: RawLog, t: &[Ty]) -> Out { c0::events::evt183::parse_log(l).map(|l| { let c0::logs::Evt183 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f183(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt183::filter() }
fn p184(l: RawLog, t: &[Ty]) -> Out { c0::events::evt184::parse_log(l).map(|l| { let c0::logs::Evt184 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f184(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt184::filter(con::<[u8; 25]>(c, 0)) }
fn p185(l: RawLog, t: &[Ty]) -> Out { c0::events::evt185::parse_log(l).map(|l| { let c0::logs::Evt185 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f185(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt185::filter() }
fn p186(l: RawLog, t: &[Ty]) -> Out { c0::events::evt186::parse_log(l).map(|l| { let c0::logs::Evt186 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f186(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt186::filter(con::<[u8; 26]>(c, 0)) }
fn p187(l: RawLog, t: &[Ty]) -> Out { c0::events::evt187::parse_log(l).map(|l| { let c0::logs::Evt187 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f187(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt187::filter() }
fn p188(l: RawLog, t: &[Ty]) -> Out { c0::events::evt188::parse_log(l).map(|l| { let c0::logs::Evt188 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f188(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt188::filter(con::<[u8; 27]>(c, 0)) }
fn p189(l: RawLog, t: &[Ty]) -> Out { c0::events::evt189::parse_log(l).map(|l| { let c0::logs::Evt189 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f189(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt189::filter() }
fn p190(l: RawLog, t: &[Ty]) -> Out { c0::events::evt190::parse_log(l).map(|l| { let c0::logs::Evt190 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f190(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt190::filter(con::<[u8; 28]>(c, 0)) }
fn p191(l: RawLog, t: &[Ty]) -> Out { c0::events::evt191::parse_log(l).map(|l| { let c0::logs::Evt191 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f191(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt191::filter() }
fn p192(l: RawLog, t: &[Ty]) -> Out { c0::events::evt192::parse_log(l).map(|l| { let c0::logs::Evt192 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f192(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt192::filter(con::<[u8; 29]>(c, 0)) }
fn p193(l: RawLog, t: &[Ty]) -> Out { c0::events::evt193::parse_log(l).map(|l| { let c0::logs::Evt193 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f193(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt193::filter() }
fn p194(l: RawLog, t: &[Ty]) -> Out { c0::events::evt194::parse_log(l).map(|l| { let c0::logs::Evt194 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f194(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt194::filter(con::<[u8; 30]>(c, 0)) }
fn p195(l: RawLog, t: &[Ty]) -> Out { c0::events::evt195::parse_log(l).map(|l| { let c0::logs::Evt195 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f195(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt195::filter() }
fn p196(l: RawLog, t: &[Ty]) -> Out { c0::events::evt196::parse_log(l).map(|l| { let c0::logs::Evt196 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f196(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt196::filter(con::<[u8; 31]>(c, 0)) }
fn p197(l: RawLog, t: &[Ty]) -> Out { c0::events::evt197::parse_log(l).map(|l| { let c0::logs::Evt197 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f197(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt197::filter() }
fn p198(l: RawLog, t: &[Ty]) -> Out { c0::events::evt198::parse_log(l).map(|l| { let c0::logs::Evt198 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f198(c: &[Tp<Val>]) -> TopicFilter { c0::events::evt198::filter(con::<Hash>(c, 0)) }
fn p199(l: RawLog, t: &[Ty]) -> Out { c0::events::evt199::parse_log(l).map(|l| { let c0::logs::Evt199 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f199(_: &[Tp<Val>]) -> TopicFilter { c0::events::evt199::filter() }
fn p200(l: RawLog, t: &[Ty]) -> Out { c1::events::evt200::parse_log(l).map(|l| { let c1::logs::Evt200 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f200(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt200::filter(con::<Address>(c, 0)) }
fn p201(l: RawLog, t: &[Ty]) -> Out { c1::events::evt201::parse_log(l).map(|l| { let c1::logs::Evt201 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f201(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt201::filter(con::<Address>(c, 0)) }
fn p202(l: RawLog, t: &[Ty]) -> Out { c1::events::evt202::parse_log(l).map(|l| { let c1::logs::Evt202 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f202(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt202::filter() }
fn p203(l: RawLog, t: &[Ty]) -> Out { c1::events::evt203::parse_log(l).map(|l| { let c1::logs::Evt203 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f203(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt203::filter() }
fn p204(l: RawLog, _: &[Ty]) -> Out { c1::events::evt204::parse_log(l).map(|l| { let c1::logs::Evt204 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f204(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt204::filter(con::<Vec<u8>>(c, 0)) }
fn p205(l: RawLog, _: &[Ty]) -> Out { c1::events::evt205::parse_log(l).map(|l| { let c1::logs::Evt205 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f205(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt205::filter(con::<Vec<u8>>(c, 0)) }
fn p206(l: RawLog, t: &[Ty]) -> Out { c1::events::evt206::parse_log(l).map(|l| { let c1::logs::Evt206 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f206(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt206::filter() }
fn p207(l: RawLog, t: &[Ty]) -> Out { c1::events::evt207::parse_log(l).map(|l| { let c1::logs::Evt207 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f207(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt207::filter() }
fn p208(l: RawLog, t: &[Ty]) -> Out { c1::events::evt208::parse_log(l).map(|l| { let c1::logs::Evt208 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f208(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt208::filter(con::<Hash>(c, 0)) }
fn p209(l: RawLog, t: &[Ty]) -> Out { c1::events::evt209::parse_log(l).map(|l| { let c1::logs::Evt209 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f209(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt209::filter(con::<Hash>(c, 0)) }
fn p210(l: RawLog, t: &[Ty]) -> Out { c1::events::evt210::parse_log(l).map(|l| { let c1::logs::Evt210 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f210(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt210::filter() }
fn p211(l: RawLog, t: &[Ty]) -> Out { c1::events::evt211::parse_log(l).map(|l| { let c1::logs::Evt211 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f211(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt211::filter() }
fn p212(l: RawLog, t: &[Ty]) -> Out { c1::events::evt212::parse_log(l).map(|l| { let c1::logs::Evt212 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f212(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt212::filter(con::<[u8; 4]>(c, 0)) }
fn p213(l: RawLog, t: &[Ty]) -> Out { c1::events::evt213::parse_log(l).map(|l| { let c1::logs::Evt213 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f213(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt213::filter(con::<[u8; 4]>(c, 0)) }
fn p214(l: RawLog, t: &[Ty]) -> Out { c1::events::evt214::parse_log(l).map(|l| { let c1::logs::Evt214 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f214(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt214::filter() }
fn p215(l: RawLog, t: &[Ty]) -> Out { c1::events::evt215::parse_log(l).map(|l| { let c1::logs::Evt215 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f215(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt215::filter() }
fn p216(l: RawLog, t: &[Ty]) -> Out { c1::events::evt216::parse_log(l).map(|l| { let c1::logs::Evt216 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f216(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt216::filter(con::<Uint>(c, 0)) }
fn p217(l: RawLog, t: &[Ty]) -> Out { c1::events::evt217::parse_log(l).map(|l| { let c1::logs::Evt217 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f217(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt217::filter(con::<Uint>(c, 0)) }
fn p218(l: RawLog, t: &[Ty]) -> Out { c1::events::evt218::parse_log(l).map(|l| { let c1::logs::Evt218 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f218(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt218::filter() }
fn p219(l: RawLog, t: &[Ty]) -> Out { c1::events::evt219::parse_log(l).map(|l| { let c1::logs::Evt219 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f219(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt219::filter() }
fn p220(l: RawLog, t: &[Ty]) -> Out { c1::events::evt220::parse_log(l).map(|l| { let c1::logs::Evt220 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f220(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt220::filter(con::<Uint>(c, 0)) }
fn p221(l: RawLog, t: &[Ty]) -> Out { c1::events::evt221::parse_log(l).map(|l| { let c1::logs::Evt221 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f221(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt221::filter(con::<Uint>(c, 0)) }
fn p222(l: RawLog, t: &[Ty]) -> Out { c1::events::evt222::parse_log(l).map(|l| { let c1::logs::Evt222 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f222(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt222::filter() }
fn p223(l: RawLog, t: &[Ty]) -> Out { c1::events::evt223::parse_log(l).map(|l| { let c1::logs::Evt223 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f223(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt223::filter() }
fn p224(l: RawLog, t: &[Ty]) -> Out { c1::events::evt224::parse_log(l).map(|l| { let c1::logs::Evt224 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f224(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt224::filter(con::<Uint>(c, 0)) }
fn p225(l: RawLog, t: &[Ty]) -> Out { c1::events::evt225::parse_log(l).map(|l| { let c1::logs::Evt225 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f225(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt225::filter(con::<Uint>(c, 0)) }
fn p226(l: RawLog, t: &[Ty]) -> Out { c1::events::evt226::parse_log(l).map(|l| { let c1::logs::Evt226 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f226(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt226::filter() }
fn p227(l: RawLog, t: &[Ty]) -> Out { c1::events::evt227::parse_log(l).map(|l| { let c1::logs::Evt227 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f227(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt227::filter() }
fn p228(l: RawLog, t: &[Ty]) -> Out { c1::events::evt228::parse_log(l).map(|l| { let c1::logs::Evt228 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f228(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt228::filter(con::<bool>(c, 0)) }
fn p229(l: RawLog, t: &[Ty]) -> Out { c1::events::evt229::parse_log(l).map(|l| { let c1::logs::Evt229 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f229(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt229::filter(con::<bool>(c, 0)) }
fn p230(l: RawLog, t: &[Ty]) -> Out { c1::events::evt230::parse_log(l).map(|l| { let c1::logs::Evt230 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f230(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt230::filter() }
fn p231(l: RawLog, t: &[Ty]) -> Out { c1::events::evt231::parse_log(l).map(|l| { let c1::logs::Evt231 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f231(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt231::filter() }
fn p232(l: RawLog, _: &[Ty]) -> Out { c1::events::evt232::parse_log(l).map(|l| { let c1::logs::Evt232 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f232(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt232::filter(con::<String>(c, 0)) }
fn p233(l: RawLog, _: &[Ty]) -> Out { c1::events::evt233::parse_log(l).map(|l| { let c1::logs::Evt233 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f233(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt233::filter(con::<String>(c, 0)) }
fn p234(l: RawLog, t: &[Ty]) -> Out { c1::events::evt234::parse_log(l).map(|l| { let c1::logs::Evt234 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f234(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt234::filter() }
fn p235(l: RawLog, t: &[Ty]) -> Out { c1::events::evt235::parse_log(l).map(|l| { let c1::logs::Evt235 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f235(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt235::filter() }
fn p236(l: RawLog, _: &[Ty]) -> Out { c1::events::evt236::parse_log(l).map(|l| { let c1::logs::Evt236 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f236(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt236::filter(con::<Vec<Uint>>(c, 0)) }
fn p237(l: RawLog, _: &[Ty]) -> Out { c1::events::evt237::parse_log(l).map(|l| { let c1::logs::Evt237 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f237(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt237::filter(con::<Vec<Uint>>(c, 0)) }
fn p238(l: RawLog, t: &[Ty]) -> Out { c1::events::evt238::parse_log(l).map(|l| { let c1::logs::Evt238 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f238(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt238::filter() }
fn p239(l: RawLog, t: &[Ty]) -> Out { c1::events::evt239::parse_log(l).map(|l| { let c1::logs::Evt239 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f239(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt239::filter() }
fn p240(l: RawLog, _: &[Ty]) -> Out { c1::events::evt240::parse_log(l).map(|l| { let c1::logs::Evt240 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f240(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt240::filter(con::<Vec<Vec<u8>>>(c, 0)) }
fn p241(l: RawLog, _: &[Ty]) -> Out { c1::events::evt241::parse_log(l).map(|l| { let c1::logs::Evt241 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f241(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt241::filter(con::<Vec<Vec<u8>>>(c, 0)) }
fn p242(l: RawLog, t: &[Ty]) -> Out { c1::events::evt242::parse_log(l).map(|l| { let c1::logs::Evt242 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f242(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt242::filter() }
fn p243(l: RawLog, t: &[Ty]) -> Out { c1::events::evt243::parse_log(l).map(|l| { let c1::logs::Evt243 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f243(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt243::filter() }
fn p244(l: RawLog, _: &[Ty]) -> Out { c1::events::evt244::parse_log(l).map(|l| { let c1::logs::Evt244 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f244(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt244::filter(con::<[String; 2]>(c, 0)) }
fn p245(l: RawLog, _: &[Ty]) -> Out { c1::events::evt245::parse_log(l).map(|l| { let c1::logs::Evt245 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f245(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt245::filter(con::<[String; 2]>(c, 0)) }
fn p246(l: RawLog, t: &[Ty]) -> Out { c1::events::evt246::parse_log(l).map(|l| { let c1::logs::Evt246 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f246(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt246::filter() }
fn p247(l: RawLog, t: &[Ty]) -> Out { c1::events::evt247::parse_log(l).map(|l| { let c1::logs::Evt247 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f247(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt247::filter() }
fn p248(l: RawLog, _: &[Ty]) -> Out { c1::events::evt248::parse_log(l).map(|l| { let c1::logs::Evt248 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f248(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt248::filter(con::<[Uint; 2]>(c, 0)) }
fn p249(l: RawLog, _: &[Ty]) -> Out { c1::events::evt249::parse_log(l).map(|l| { let c1::logs::Evt249 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f249(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt249::filter(con::<[Uint; 2]>(c, 0)) }
fn p250(l: RawLog, t: &[Ty]) -> Out { c1::events::evt250::parse_log(l).map(|l| { let c1::logs::Evt250 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f250(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt250::filter() }
fn p251(l: RawLog, t: &[Ty]) -> Out { c1::events::evt251::parse_log(l).map(|l| { let c1::logs::Evt251 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f251(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt251::filter() }
fn p252(l: RawLog, _: &[Ty]) -> Out { c1::events::evt252::parse_log(l).map(|l| { let c1::logs::Evt252 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f252(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt252::filter(con::<Vec<[[u8; 4]; 2]>>(c, 0)) }
fn p253(l: RawLog, _: &[Ty]) -> Out { c1::events::evt253::parse_log(l).map(|l| { let c1::logs::Evt253 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f253(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt253::filter(con::<Vec<[[u8; 4]; 2]>>(c, 0)) }
fn p254(l: RawLog, t: &[Ty]) -> Out { c1::events::evt254::parse_log(l).map(|l| { let c1::logs::Evt254 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f254(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt254::filter() }
fn p255(l: RawLog, t: &[Ty]) -> Out { c1::events::evt255::parse_log(l).map(|l| { let c1::logs::Evt255 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f255(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt255::filter() }
fn p256(l: RawLog, _: &[Ty]) -> Out { c1::events::evt256::parse_log(l).map(|l| { let c1::logs::Evt256 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f256(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt256::filter(con::<[Vec<Uint>; 2]>(c, 0)) }
fn p257(l: RawLog, _: &[Ty]) -> Out { c1::events::evt257::parse_log(l).map(|l| { let c1::logs::Evt257 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f257(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt257::filter(con::<[Vec<Uint>; 2]>(c, 0)) }
fn p258(l: RawLog, t: &[Ty]) -> Out { c1::events::evt258::parse_log(l).map(|l| { let c1::logs::Evt258 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f258(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt258::filter() }
fn p259(l: RawLog, t: &[Ty]) -> Out { c1::events::evt259::parse_log(l).map(|l| { let c1::logs::Evt259 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f259(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt259::filter() }
fn p260(l: RawLog, _: &[Ty]) -> Out { c1::events::evt260::parse_log(l).map(|l| { let c1::logs::Evt260 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f260(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt260::filter(con::<[Hash; 3]>(c, 0)) }
fn p261(l: RawLog, _: &[Ty]) -> Out { c1::events::evt261::parse_log(l).map(|l| { let c1::logs::Evt261 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f261(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt261::filter(con::<[Hash; 3]>(c, 0)) }
fn p262(l: RawLog, t: &[Ty]) -> Out { c1::events::evt262::parse_log(l).map(|l| { let c1::logs::Evt262 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f262(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt262::filter() }
fn p263(l: RawLog, t: &[Ty]) -> Out { c1::events::evt263::parse_log(l).map(|l| { let c1::logs::Evt263 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f263(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt263::filter() }
fn p264(l: RawLog, _: &[Ty]) -> Out { c1::events::evt264::parse_log(l).map(|l| { let c1::logs::Evt264 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f264(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt264::filter(con::<[bool; 1]>(c, 0)) }
fn p265(l: RawLog, _: &[Ty]) -> Out { c1::events::evt265::parse_log(l).map(|l| { let c1::logs::Evt265 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f265(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt265::filter(con::<[bool; 1]>(c, 0)) }
fn p266(l: RawLog, t: &[Ty]) -> Out { c1::events::evt266::parse_log(l).map(|l| { let c1::logs::Evt266 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f266(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt266::filter() }
fn p267(l: RawLog, t: &[Ty]) -> Out { c1::events::evt267::parse_log(l).map(|l| { let c1::logs::Evt267 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f267(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt267::filter() }
fn p268(l: RawLog, _: &[Ty]) -> Out { c1::events::evt268::parse_log(l).map(|l| { let c1::logs::Evt268 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f268(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt268::filter(con::<Vec<Address>>(c, 0)) }
fn p269(l: RawLog, _: &[Ty]) -> Out { c1::events::evt269::parse_log(l).map(|l| { let c1::logs::Evt269 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f269(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt269::filter(con::<Vec<Address>>(c, 0)) }
fn p270(l: RawLog, t: &[Ty]) -> Out { c1::events::evt270::parse_log(l).map(|l| { let c1::logs::Evt270 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f270(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt270::filter() }
fn p271(l: RawLog, t: &[Ty]) -> Out { c1::events::evt271::parse_log(l).map(|l| { let c1::logs::Evt271 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f271(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt271::filter() }
fn p272(l: RawLog, _: &[Ty]) -> Out { c1::events::evt272::parse_log(l).map(|l| { let c1::logs::Evt272 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f272(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt272::filter(con::<Vec<Vec<String>>>(c, 0)) }
fn p273(l: RawLog, _: &[Ty]) -> Out { c1::events::evt273::parse_log(l).map(|l| { let c1::logs::Evt273 { p0: f0 } = l; vec![hash(f0)] }).map_err(|e| e.to_string()) }
fn f273(c: &[Tp<Val>]) -> TopicFilter { c1::events::evt273::filter(con::<Vec<Vec<String>>>(c, 0)) }
fn p274(l: RawLog, t: &[Ty]) -> Out { c1::events::evt274::parse_log(l).map(|l| { let c1::logs::Evt274 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f274(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt274::filter() }
fn p275(l: RawLog, t: &[Ty]) -> Out { c1::events::evt275::parse_log(l).map(|l| { let c1::logs::Evt275 { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f275(_: &[Tp<Val>]) -> TopicFilter { c1::events::evt275::filter() }
fn p276(l: RawLog, t: &[Ty]) -> Out { c2::events::evt276::parse_log(l).map(|l| { let c2::logs::Evt276 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f276(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt276::filter(con::<Address>(c, 0), con::<Address>(c, 1)) }
fn p277(l: RawLog, t: &[Ty]) -> Out { c2::events::evt277::parse_log(l).map(|l| { let c2::logs::Evt277 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f277(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt277::filter(con::<Address>(c, 0)) }
fn p278(l: RawLog, t: &[Ty]) -> Out { c2::events::evt278::parse_log(l).map(|l| { let c2::logs::Evt278 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f278(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt278::filter(con::<Address>(c, 0)) }
fn p279(l: RawLog, t: &[Ty]) -> Out { c2::events::evt279::parse_log(l).map(|l| { let c2::logs::Evt279 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f279(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt279::filter() }
fn p280(l: RawLog, t: &[Ty]) -> Out { c2::events::evt280::parse_log(l).map(|l| { let c2::logs::Evt280 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f280(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt280::filter(con::<Address>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p281(l: RawLog, t: &[Ty]) -> Out { c2::events::evt281::parse_log(l).map(|l| { let c2::logs::Evt281 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f281(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt281::filter(con::<Address>(c, 0)) }
fn p282(l: RawLog, t: &[Ty]) -> Out { c2::events::evt282::parse_log(l).map(|l| { let c2::logs::Evt282 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f282(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt282::filter(con::<Vec<u8>>(c, 0)) }
fn p283(l: RawLog, t: &[Ty]) -> Out { c2::events::evt283::parse_log(l).map(|l| { let c2::logs::Evt283 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f283(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt283::filter() }
fn p284(l: RawLog, t: &[Ty]) -> Out { c2::events::evt284::parse_log(l).map(|l| { let c2::logs::Evt284 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f284(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt284::filter(con::<Address>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p285(l: RawLog, t: &[Ty]) -> Out { c2::events::evt285::parse_log(l).map(|l| { let c2::logs::Evt285 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f285(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt285::filter(con::<Address>(c, 0)) }
fn p286(l: RawLog, t: &[Ty]) -> Out { c2::events::evt286::parse_log(l).map(|l| { let c2::logs::Evt286 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f286(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt286::filter(con::<[u8; 4]>(c, 0)) }
fn p287(l: RawLog, t: &[Ty]) -> Out { c2::events::evt287::parse_log(l).map(|l| { let c2::logs::Evt287 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f287(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt287::filter() }
fn p288(l: RawLog, t: &[Ty]) -> Out { c2::events::evt288::parse_log(l).map(|l| { let c2::logs::Evt288 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f288(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt288::filter(con::<Address>(c, 0), con::<Uint>(c, 1)) }
fn p289(l: RawLog, t: &[Ty]) -> Out { c2::events::evt289::parse_log(l).map(|l| { let c2::logs::Evt289 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f289(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt289::filter(con::<Address>(c, 0)) }
fn p290(l: RawLog, t: &[Ty]) -> Out { c2::events::evt290::parse_log(l).map(|l| { let c2::logs::Evt290 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f290(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt290::filter(con::<Uint>(c, 0)) }
fn p291(l: RawLog, t: &[Ty]) -> Out { c2::events::evt291::parse_log(l).map(|l| { let c2::logs::Evt291 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f291(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt291::filter() }
fn p292(l: RawLog, t: &[Ty]) -> Out { c2::events::evt292::parse_log(l).map(|l| { let c2::logs::Evt292 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f292(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt292::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p293(l: RawLog, t: &[Ty]) -> Out { c2::events::evt293::parse_log(l).map(|l| { let c2::logs::Evt293 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f293(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt293::filter(con::<Address>(c, 0)) }
fn p294(l: RawLog, t: &[Ty]) -> Out { c2::events::evt294::parse_log(l).map(|l| { let c2::logs::Evt294 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f294(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt294::filter(con::<String>(c, 0)) }
fn p295(l: RawLog, t: &[Ty]) -> Out { c2::events::evt295::parse_log(l).map(|l| { let c2::logs::Evt295 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f295(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt295::filter() }
fn p296(l: RawLog, t: &[Ty]) -> Out { c2::events::evt296::parse_log(l).map(|l| { let c2::logs::Evt296 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f296(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt296::filter(con::<Address>(c, 0), con::<bool>(c, 1)) }
fn p297(l: RawLog, t: &[Ty]) -> Out { c2::events::evt297::parse_log(l).map(|l| { let c2::logs::Evt297 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f297(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt297::filter(con::<Address>(c, 0)) }
fn p298(l: RawLog, t: &[Ty]) -> Out { c2::events::evt298::parse_log(l).map(|l| { let c2::logs::Evt298 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f298(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt298::filter(con::<bool>(c, 0)) }
fn p299(l: RawLog, t: &[Ty]) -> Out { c2::events::evt299::parse_log(l).map(|l| { let c2::logs::Evt299 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f299(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt299::filter() }
fn p300(l: RawLog, t: &[Ty]) -> Out { c2::events::evt300::parse_log(l).map(|l| { let c2::logs::Evt300 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f300(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt300::filter(con::<Address>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p301(l: RawLog, t: &[Ty]) -> Out { c2::events::evt301::parse_log(l).map(|l| { let c2::logs::Evt301 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f301(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt301::filter(con::<Address>(c, 0)) }
fn p302(l: RawLog, t: &[Ty]) -> Out { c2::events::evt302::parse_log(l).map(|l| { let c2::logs::Evt302 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f302(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt302::filter(con::<Vec<Uint>>(c, 0)) }
fn p303(l: RawLog, t: &[Ty]) -> Out { c2::events::evt303::parse_log(l).map(|l| { let c2::logs::Evt303 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f303(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt303::filter() }
fn p304(l: RawLog, t: &[Ty]) -> Out { c2::events::evt304::parse_log(l).map(|l| { let c2::logs::Evt304 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f304(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt304::filter(con::<Address>(c, 0), con::<[String; 2]>(c, 1)) }
fn p305(l: RawLog, t: &[Ty]) -> Out { c2::events::evt305::parse_log(l).map(|l| { let c2::logs::Evt305 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f305(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt305::filter(con::<Address>(c, 0)) }
fn p306(l: RawLog, t: &[Ty]) -> Out { c2::events::evt306::parse_log(l).map(|l| { let c2::logs::Evt306 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f306(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt306::filter(con::<[String; 2]>(c, 0)) }
fn p307(l: RawLog, t: &[Ty]) -> Out { c2::events::evt307::parse_log(l).map(|l| { let c2::logs::Evt307 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f307(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt307::filter() }
fn p308(l: RawLog, t: &[Ty]) -> Out { c2::events::evt308::parse_log(l).map(|l| { let c2::logs::Evt308 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f308(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt308::filter(con::<Vec<u8>>(c, 0), con::<Address>(c, 1)) }
fn p309(l: RawLog, t: &[Ty]) -> Out { c2::events::evt309::parse_log(l).map(|l| { let c2::logs::Evt309 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f309(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt309::filter(con::<Vec<u8>>(c, 0)) }
fn p310(l: RawLog, t: &[Ty]) -> Out { c2::events::evt310::parse_log(l).map(|l| { let c2::logs::Evt310 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f310(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt310::filter(con::<Address>(c, 0)) }
fn p311(l: RawLog, t: &[Ty]) -> Out { c2::events::evt311::parse_log(l).map(|l| { let c2::logs::Evt311 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f311(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt311::filter() }
fn p312(l: RawLog, _: &[Ty]) -> Out { c2::events::evt312::parse_log(l).map(|l| { let c2::logs::Evt312 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f312(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt312::filter(con::<Vec<u8>>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p313(l: RawLog, t: &[Ty]) -> Out { c2::events::evt313::parse_log(l).map(|l| { let c2::logs::Evt313 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f313(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt313::filter(con::<Vec<u8>>(c, 0)) }
fn p314(l: RawLog, t: &[Ty]) -> Out { c2::events::evt314::parse_log(l).map(|l| { let c2::logs::Evt314 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f314(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt314::filter(con::<Vec<u8>>(c, 0)) }
fn p315(l: RawLog, t: &[Ty]) -> Out { c2::events::evt315::parse_log(l).map(|l| { let c2::logs::Evt315 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f315(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt315::filter() }
fn p316(l: RawLog, t: &[Ty]) -> Out { c2::events::evt316::parse_log(l).map(|l| { let c2::logs::Evt316 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f316(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt316::filter(con::<Vec<u8>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p317(l: RawLog, t: &[Ty]) -> Out { c2::events::evt317::parse_log(l).map(|l| { let c2::logs::Evt317 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f317(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt317::filter(con::<Vec<u8>>(c, 0)) }
fn p318(l: RawLog, t: &[Ty]) -> Out { c2::events::evt318::parse_log(l).map(|l| { let c2::logs::Evt318 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f318(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt318::filter(con::<[u8; 4]>(c, 0)) }
fn p319(l: RawLog, t: &[Ty]) -> Out { c2::events::evt319::parse_log(l).map(|l| { let c2::logs::Evt319 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f319(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt319::filter() }
fn p320(l: RawLog, t: &[Ty]) -> Out { c2::events::evt320::parse_log(l).map(|l| { let c2::logs::Evt320 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f320(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt320::filter(con::<Vec<u8>>(c, 0), con::<Uint>(c, 1)) }
fn p321(l: RawLog, t: &[Ty]) -> Out { c2::events::evt321::parse_log(l).map(|l| { let c2::logs::Evt321 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f321(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt321::filter(con::<Vec<u8>>(c, 0)) }
fn p322(l: RawLog, t: &[Ty]) -> Out { c2::events::evt322::parse_log(l).map(|l| { let c2::logs::Evt322 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f322(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt322::filter(con::<Uint>(c, 0)) }
fn p323(l: RawLog, t: &[Ty]) -> Out { c2::events::evt323::parse_log(l).map(|l| { let c2::logs::Evt323 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f323(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt323::filter() }
fn p324(l: RawLog, _: &[Ty]) -> Out { c2::events::evt324::parse_log(l).map(|l| { let c2::logs::Evt324 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f324(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt324::filter(con::<Vec<u8>>(c, 0), con::<String>(c, 1)) }
fn p325(l: RawLog, t: &[Ty]) -> Out { c2::events::evt325::parse_log(l).map(|l| { let c2::logs::Evt325 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f325(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt325::filter(con::<Vec<u8>>(c, 0)) }
fn p326(l: RawLog, t: &[Ty]) -> Out { c2::events::evt326::parse_log(l).map(|l| { let c2::logs::Evt326 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f326(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt326::filter(con::<String>(c, 0)) }
fn p327(l: RawLog, t: &[Ty]) -> Out { c2::events::evt327::parse_log(l).map(|l| { let c2::logs::Evt327 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f327(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt327::filter() }
fn p328(l: RawLog, t: &[Ty]) -> Out { c2::events::evt328::parse_log(l).map(|l| { let c2::logs::Evt328 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f328(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt328::filter(con::<Vec<u8>>(c, 0), con::<bool>(c, 1)) }
fn p329(l: RawLog, t: &[Ty]) -> Out { c2::events::evt329::parse_log(l).map(|l| { let c2::logs::Evt329 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f329(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt329::filter(con::<Vec<u8>>(c, 0)) }
fn p330(l: RawLog, t: &[Ty]) -> Out { c2::events::evt330::parse_log(l).map(|l| { let c2::logs::Evt330 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f330(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt330::filter(con::<bool>(c, 0)) }
fn p331(l: RawLog, t: &[Ty]) -> Out { c2::events::evt331::parse_log(l).map(|l| { let c2::logs::Evt331 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f331(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt331::filter() }
fn p332(l: RawLog, _: &[Ty]) -> Out { c2::events::evt332::parse_log(l).map(|l| { let c2::logs::Evt332 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f332(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt332::filter(con::<Vec<u8>>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p333(l: RawLog, t: &[Ty]) -> Out { c2::events::evt333::parse_log(l).map(|l| { let c2::logs::Evt333 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f333(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt333::filter(con::<Vec<u8>>(c, 0)) }
fn p334(l: RawLog, t: &[Ty]) -> Out { c2::events::evt334::parse_log(l).map(|l| { let c2::logs::Evt334 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f334(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt334::filter(con::<Vec<Uint>>(c, 0)) }
fn p335(l: RawLog, t: &[Ty]) -> Out { c2::events::evt335::parse_log(l).map(|l| { let c2::logs::Evt335 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f335(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt335::filter() }
fn p336(l: RawLog, _: &[Ty]) -> Out { c2::events::evt336::parse_log(l).map(|l| { let c2::logs::Evt336 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f336(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt336::filter(con::<Vec<u8>>(c, 0), con::<[String; 2]>(c, 1)) }
fn p337(l: RawLog, t: &[Ty]) -> Out { c2::events::evt337::parse_log(l).map(|l| { let c2::logs::Evt337 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f337(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt337::filter(con::<Vec<u8>>(c, 0)) }
fn p338(l: RawLog, t: &[Ty]) -> Out { c2::events::evt338::parse_log(l).map(|l| { let c2::logs::Evt338 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f338(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt338::filter(con::<[String; 2]>(c, 0)) }
fn p339(l: RawLog, t: &[Ty]) -> Out { c2::events::evt339::parse_log(l).map(|l| { let c2::logs::Evt339 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f339(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt339::filter() }
fn p340(l: RawLog, t: &[Ty]) -> Out { c2::events::evt340::parse_log(l).map(|l| { let c2::logs::Evt340 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f340(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt340::filter(con::<[u8; 4]>(c, 0), con::<Address>(c, 1)) }
fn p341(l: RawLog, t: &[Ty]) -> Out { c2::events::evt341::parse_log(l).map(|l| { let c2::logs::Evt341 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f341(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt341::filter(con::<[u8; 4]>(c, 0)) }
fn p342(l: RawLog, t: &[Ty]) -> Out { c2::events::evt342::parse_log(l).map(|l| { let c2::logs::Evt342 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f342(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt342::filter(con::<Address>(c, 0)) }
fn p343(l: RawLog, t: &[Ty]) -> Out { c2::events::evt343::parse_log(l).map(|l| { let c2::logs::Evt343 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f343(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt343::filter() }
fn p344(l: RawLog, t: &[Ty]) -> Out { c2::events::evt344::parse_log(l).map(|l| { let c2::logs::Evt344 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f344(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt344::filter(con::<[u8; 4]>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p345(l: RawLog, t: &[Ty]) -> Out { c2::events::evt345::parse_log(l).map(|l| { let c2::logs::Evt345 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f345(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt345::filter(con::<[u8; 4]>(c, 0)) }
fn p346(l: RawLog, t: &[Ty]) -> Out { c2::events::evt346::parse_log(l).map(|l| { let c2::logs::Evt346 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f346(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt346::filter(con::<Vec<u8>>(c, 0)) }
fn p347(l: RawLog, t: &[Ty]) -> Out { c2::events::evt347::parse_log(l).map(|l| { let c2::logs::Evt347 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f347(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt347::filter() }
fn p348(l: RawLog, t: &[Ty]) -> Out { c2::events::evt348::parse_log(l).map(|l| { let c2::logs::Evt348 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f348(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt348::filter(con::<[u8; 4]>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p349(l: RawLog, t: &[Ty]) -> Out { c2::events::evt349::parse_log(l).map(|l| { let c2::logs::Evt349 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f349(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt349::filter(con::<[u8; 4]>(c, 0)) }
fn p350(l: RawLog, t: &[Ty]) -> Out { c2::events::evt350::parse_log(l).map(|l| { let c2::logs::Evt350 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f350(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt350::filter(con::<[u8; 4]>(c, 0)) }
fn p351(l: RawLog, t: &[Ty]) -> Out { c2::events::evt351::parse_log(l).map(|l| { let c2::logs::Evt351 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f351(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt351::filter() }
fn p352(l: RawLog, t: &[Ty]) -> Out { c2::events::evt352::parse_log(l).map(|l| { let c2::logs::Evt352 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f352(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt352::filter(con::<[u8; 4]>(c, 0), con::<Uint>(c, 1)) }
fn p353(l: RawLog, t: &[Ty]) -> Out { c2::events::evt353::parse_log(l).map(|l| { let c2::logs::Evt353 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f353(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt353::filter(con::<[u8; 4]>(c, 0)) }
fn p354(l: RawLog, t: &[Ty]) -> Out { c2::events::evt354::parse_log(l).map(|l| { let c2::logs::Evt354 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f354(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt354::filter(con::<Uint>(c, 0)) }
fn p355(l: RawLog, t: &[Ty]) -> Out { c2::events::evt355::parse_log(l).map(|l| { let c2::logs::Evt355 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f355(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt355::filter() }
fn p356(l: RawLog, t: &[Ty]) -> Out { c2::events::evt356::parse_log(l).map(|l| { let c2::logs::Evt356 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f356(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt356::filter(con::<[u8; 4]>(c, 0), con::<String>(c, 1)) }
fn p357(l: RawLog, t: &[Ty]) -> Out { c2::events::evt357::parse_log(l).map(|l| { let c2::logs::Evt357 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f357(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt357::filter(con::<[u8; 4]>(c, 0)) }
fn p358(l: RawLog, t: &[Ty]) -> Out { c2::events::evt358::parse_log(l).map(|l| { let c2::logs::Evt358 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f358(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt358::filter(con::<String>(c, 0)) }
fn p359(l: RawLog, t: &[Ty]) -> Out { c2::events::evt359::parse_log(l).map(|l| { let c2::logs::Evt359 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f359(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt359::filter() }
fn p360(l: RawLog, t: &[Ty]) -> Out { c2::events::evt360::parse_log(l).map(|l| { let c2::logs::Evt360 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f360(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt360::filter(con::<[u8; 4]>(c, 0), con::<bool>(c, 1)) }
fn p361(l: RawLog, t: &[Ty]) -> Out { c2::events::evt361::parse_log(l).map(|l| { let c2::logs::Evt361 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f361(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt361::filter(con::<[u8; 4]>(c, 0)) }
fn p362(l: RawLog, t: &[Ty]) -> Out { c2::events::evt362::parse_log(l).map(|l| { let c2::logs::Evt362 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f362(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt362::filter(con::<bool>(c, 0)) }
fn p363(l: RawLog, t: &[Ty]) -> Out { c2::events::evt363::parse_log(l).map(|l| { let c2::logs::Evt363 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f363(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt363::filter() }
fn p364(l: RawLog, t: &[Ty]) -> Out { c2::events::evt364::parse_log(l).map(|l| { let c2::logs::Evt364 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f364(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt364::filter(con::<[u8; 4]>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p365(l: RawLog, t: &[Ty]) -> Out { c2::events::evt365::parse_log(l).map(|l| { let c2::logs::Evt365 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f365(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt365::filter(con::<[u8; 4]>(c, 0)) }
fn p366(l: RawLog, t: &[Ty]) -> Out { c2::events::evt366::parse_log(l).map(|l| { let c2::logs::Evt366 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f366(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt366::filter(con::<Vec<Uint>>(c, 0)) }
fn p367(l: RawLog, t: &[Ty]) -> Out { c2::events::evt367::parse_log(l).map(|l| { let c2::logs::Evt367 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f367(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt367::filter() }
fn p368(l: RawLog, t: &[Ty]) -> Out { c2::events::evt368::parse_log(l).map(|l| { let c2::logs::Evt368 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f368(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt368::filter(con::<[u8; 4]>(c, 0), con::<[String; 2]>(c, 1)) }
fn p369(l: RawLog, t: &[Ty]) -> Out { c2::events::evt369::parse_log(l).map(|l| { let c2::logs::Evt369 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f369(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt369::filter(con::<[u8; 4]>(c, 0)) }
fn p370(l: RawLog, t: &[Ty]) -> Out { c2::events::evt370::parse_log(l).map(|l| { let c2::logs::Evt370 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f370(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt370::filter(con::<[String; 2]>(c, 0)) }
fn p371(l: RawLog, t: &[Ty]) -> Out { c2::events::evt371::parse_log(l).map(|l| { let c2::logs::Evt371 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f371(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt371::filter() }
fn p372(l: RawLog, t: &[Ty]) -> Out { c2::events::evt372::parse_log(l).map(|l| { let c2::logs::Evt372 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f372(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt372::filter(con::<Uint>(c, 0), con::<Address>(c, 1)) }
fn p373(l: RawLog, t: &[Ty]) -> Out { c2::events::evt373::parse_log(l).map(|l| { let c2::logs::Evt373 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f373(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt373::filter(con::<Uint>(c, 0)) }
fn p374(l: RawLog, t: &[Ty]) -> Out { c2::events::evt374::parse_log(l).map(|l| { let c2::logs::Evt374 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f374(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt374::filter(con::<Address>(c, 0)) }
fn p375(l: RawLog, t: &[Ty]) -> Out { c2::events::evt375::parse_log(l).map(|l| { let c2::logs::Evt375 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f375(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt375::filter() }
fn p376(l: RawLog, t: &[Ty]) -> Out { c2::events::evt376::parse_log(l).map(|l| { let c2::logs::Evt376 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f376(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt376::filter(con::<Uint>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p377(l: RawLog, t: &[Ty]) -> Out { c2::events::evt377::parse_log(l).map(|l| { let c2::logs::Evt377 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f377(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt377::filter(con::<Uint>(c, 0)) }
fn p378(l: RawLog, t: &[Ty]) -> Out { c2::events::evt378::parse_log(l).map(|l| { let c2::logs::Evt378 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f378(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt378::filter(con::<Vec<u8>>(c, 0)) }
fn p379(l: RawLog, t: &[Ty]) -> Out { c2::events::evt379::parse_log(l).map(|l| { let c2::logs::Evt379 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f379(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt379::filter() }
fn p380(l: RawLog, t: &[Ty]) -> Out { c2::events::evt380::parse_log(l).map(|l| { let c2::logs::Evt380 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f380(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt380::filter(con::<Uint>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p381(l: RawLog, t: &[Ty]) -> Out { c2::events::evt381::parse_log(l).map(|l| { let c2::logs::Evt381 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f381(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt381::filter(con::<Uint>(c, 0)) }
fn p382(l: RawLog, t: &[Ty]) -> Out { c2::events::evt382::parse_log(l).map(|l| { let c2::logs::Evt382 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f382(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt382::filter(con::<[u8; 4]>(c, 0)) }
fn p383(l: RawLog, t: &[Ty]) -> Out { c2::events::evt383::parse_log(l).map(|l| { let c2::logs::Evt383 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f383(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt383::filter() }
fn p384(l: RawLog, t: &[Ty]) -> Out { c2::events::evt384::parse_log(l).map(|l| { let c2::logs::Evt384 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f384(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt384::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p385(l: RawLog, t: &[Ty]) -> Out { c2::events::evt385::parse_log(l).map(|l| { let c2::logs::Evt385 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f385(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt385::filter(con::<Uint>(c, 0)) }
fn p386(l: RawLog, t: &[Ty]) -> Out { c2::events::evt386::parse_log(l).map(|l| { let c2::logs::Evt386 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f386(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt386::filter(con::<Uint>(c, 0)) }
fn p387(l: RawLog, t: &[Ty]) -> Out { c2::events::evt387::parse_log(l).map(|l| { let c2::logs::Evt387 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f387(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt387::filter() }
fn p388(l: RawLog, t: &[Ty]) -> Out { c2::events::evt388::parse_log(l).map(|l| { let c2::logs::Evt388 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f388(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt388::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p389(l: RawLog, t: &[Ty]) -> Out { c2::events::evt389::parse_log(l).map(|l| { let c2::logs::Evt389 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f389(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt389::filter(con::<Uint>(c, 0)) }
fn p390(l: RawLog, t: &[Ty]) -> Out { c2::events::evt390::parse_log(l).map(|l| { let c2::logs::Evt390 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f390(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt390::filter(con::<String>(c, 0)) }
fn p391(l: RawLog, t: &[Ty]) -> Out { c2::events::evt391::parse_log(l).map(|l| { let c2::logs::Evt391 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f391(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt391::filter() }
fn p392(l: RawLog, t: &[Ty]) -> Out { c2::events::evt392::parse_log(l).map(|l| { let c2::logs::Evt392 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f392(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt392::filter(con::<Uint>(c, 0), con::<bool>(c, 1)) }
fn p393(l: RawLog, t: &[Ty]) -> Out { c2::events::evt393::parse_log(l).map(|l| { let c2::logs::Evt393 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f393(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt393::filter(con::<Uint>(c, 0)) }
fn p394(l: RawLog, t: &[Ty]) -> Out { c2::events::evt394::parse_log(l).map(|l| { let c2::logs::Evt394 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f394(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt394::filter(con::<bool>(c, 0)) }
fn p395(l: RawLog, t: &[Ty]) -> Out { c2::events::evt395::parse_log(l).map(|l| { let c2::logs::Evt395 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f395(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt395::filter() }
fn p396(l: RawLog, t: &[Ty]) -> Out { c2::events::evt396::parse_log(l).map(|l| { let c2::logs::Evt396 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f396(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt396::filter(con::<Uint>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p397(l: RawLog, t: &[Ty]) -> Out { c2::events::evt397::parse_log(l).map(|l| { let c2::logs::Evt397 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f397(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt397::filter(con::<Uint>(c, 0)) }
fn p398(l: RawLog, t: &[Ty]) -> Out { c2::events::evt398::parse_log(l).map(|l| { let c2::logs::Evt398 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f398(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt398::filter(con::<Vec<Uint>>(c, 0)) }
fn p399(l: RawLog, t: &[Ty]) -> Out { c2::events::evt399::parse_log(l).map(|l| { let c2::logs::Evt399 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f399(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt399::filter() }
fn p400(l: RawLog, t: &[Ty]) -> Out { c2::events::evt400::parse_log(l).map(|l| { let c2::logs::Evt400 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f400(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt400::filter(con::<Uint>(c, 0), con::<[String; 2]>(c, 1)) }
fn p401(l: RawLog, t: &[Ty]) -> Out { c2::events::evt401::parse_log(l).map(|l| { let c2::logs::Evt401 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f401(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt401::filter(con::<Uint>(c, 0)) }
fn p402(l: RawLog, t: &[Ty]) -> Out { c2::events::evt402::parse_log(l).map(|l| { let c2::logs::Evt402 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f402(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt402::filter(con::<[String; 2]>(c, 0)) }
fn p403(l: RawLog, t: &[Ty]) -> Out { c2::events::evt403::parse_log(l).map(|l| { let c2::logs::Evt403 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f403(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt403::filter() }
fn p404(l: RawLog, t: &[Ty]) -> Out { c2::events::evt404::parse_log(l).map(|l| { let c2::logs::Evt404 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f404(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt404::filter(con::<String>(c, 0), con::<Address>(c, 1)) }
fn p405(l: RawLog, t: &[Ty]) -> Out { c2::events::evt405::parse_log(l).map(|l| { let c2::logs::Evt405 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f405(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt405::filter(con::<String>(c, 0)) }
fn p406(l: RawLog, t: &[Ty]) -> Out { c2::events::evt406::parse_log(l).map(|l| { let c2::logs::Evt406 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f406(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt406::filter(con::<Address>(c, 0)) }
fn p407(l: RawLog, t: &[Ty]) -> Out { c2::events::evt407::parse_log(l).map(|l| { let c2::logs::Evt407 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f407(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt407::filter() }
fn p408(l: RawLog, _: &[Ty]) -> Out { c2::events::evt408::parse_log(l).map(|l| { let c2::logs::Evt408 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f408(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt408::filter(con::<String>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p409(l: RawLog, t: &[Ty]) -> Out { c2::events::evt409::parse_log(l).map(|l| { let c2::logs::Evt409 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f409(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt409::filter(con::<String>(c, 0)) }
fn p410(l: RawLog, t: &[Ty]) -> Out { c2::events::evt410::parse_log(l).map(|l| { let c2::logs::Evt410 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f410(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt410::filter(con::<Vec<u8>>(c, 0)) }
fn p411(l: RawLog, t: &[Ty]) -> Out { c2::events::evt411::parse_log(l).map(|l| { let c2::logs::Evt411 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f411(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt411::filter() }
fn p412(l: RawLog, t: &[Ty]) -> Out { c2::events::evt412::parse_log(l).map(|l| { let c2::logs::Evt412 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f412(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt412::filter(con::<String>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p413(l: RawLog, t: &[Ty]) -> Out { c2::events::evt413::parse_log(l).map(|l| { let c2::logs::Evt413 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f413(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt413::filter(con::<String>(c, 0)) }
fn p414(l: RawLog, t: &[Ty]) -> Out { c2::events::evt414::parse_log(l).map(|l| { let c2::logs::Evt414 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f414(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt414::filter(con::<[u8; 4]>(c, 0)) }
fn p415(l: RawLog, t: &[Ty]) -> Out { c2::events::evt415::parse_log(l).map(|l| { let c2::logs::Evt415 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f415(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt415::filter() }
fn p416(l: RawLog, t: &[Ty]) -> Out { c2::events::evt416::parse_log(l).map(|l| { let c2::logs::Evt416 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f416(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt416::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p417(l: RawLog, t: &[Ty]) -> Out { c2::events::evt417::parse_log(l).map(|l| { let c2::logs::Evt417 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f417(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt417::filter(con::<String>(c, 0)) }
fn p418(l: RawLog, t: &[Ty]) -> Out { c2::events::evt418::parse_log(l).map(|l| { let c2::logs::Evt418 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f418(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt418::filter(con::<Uint>(c, 0)) }
fn p419(l: RawLog, t: &[Ty]) -> Out { c2::events::evt419::parse_log(l).map(|l| { let c2::logs::Evt419 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f419(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt419::filter() }
fn p420(l: RawLog, _: &[Ty]) -> Out { c2::events::evt420::parse_log(l).map(|l| { let c2::logs::Evt420 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f420(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt420::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p421(l: RawLog, t: &[Ty]) -> Out { c2::events::evt421::parse_log(l).map(|l| { let c2::logs::Evt421 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f421(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt421::filter(con::<String>(c, 0)) }
fn p422(l: RawLog, t: &[Ty]) -> Out { c2::events::evt422::parse_log(l).map(|l| { let c2::logs::Evt422 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f422(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt422::filter(con::<String>(c, 0)) }
fn p423(l: RawLog, t: &[Ty]) -> Out { c2::events::evt423::parse_log(l).map(|l| { let c2::logs::Evt423 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f423(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt423::filter() }
fn p424(l: RawLog, t: &[Ty]) -> Out { c2::events::evt424::parse_log(l).map(|l| { let c2::logs::Evt424 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f424(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt424::filter(con::<String>(c, 0), con::<bool>(c, 1)) }
fn p425(l: RawLog, t: &[Ty]) -> Out { c2::events::evt425::parse_log(l).map(|l| { let c2::logs::Evt425 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f425(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt425::filter(con::<String>(c, 0)) }
fn p426(l: RawLog, t: &[Ty]) -> Out { c2::events::evt426::parse_log(l).map(|l| { let c2::logs::Evt426 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f426(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt426::filter(con::<bool>(c, 0)) }
fn p427(l: RawLog, t: &[Ty]) -> Out { c2::events::evt427::parse_log(l).map(|l| { let c2::logs::Evt427 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f427(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt427::filter() }
fn p428(l: RawLog, _: &[Ty]) -> Out { c2::events::evt428::parse_log(l).map(|l| { let c2::logs::Evt428 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f428(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt428::filter(con::<String>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p429(l: RawLog, t: &[Ty]) -> Out { c2::events::evt429::parse_log(l).map(|l| { let c2::logs::Evt429 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f429(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt429::filter(con::<String>(c, 0)) }
fn p430(l: RawLog, t: &[Ty]) -> Out { c2::events::evt430::parse_log(l).map(|l| { let c2::logs::Evt430 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f430(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt430::filter(con::<Vec<Uint>>(c, 0)) }
fn p431(l: RawLog, t: &[Ty]) -> Out { c2::events::evt431::parse_log(l).map(|l| { let c2::logs::Evt431 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f431(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt431::filter() }
fn p432(l: RawLog, _: &[Ty]) -> Out { c2::events::evt432::parse_log(l).map(|l| { let c2::logs::Evt432 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f432(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt432::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p433(l: RawLog, t: &[Ty]) -> Out { c2::events::evt433::parse_log(l).map(|l| { let c2::logs::Evt433 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f433(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt433::filter(con::<String>(c, 0)) }
fn p434(l: RawLog, t: &[Ty]) -> Out { c2::events::evt434::parse_log(l).map(|l| { let c2::logs::Evt434 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f434(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt434::filter(con::<[String; 2]>(c, 0)) }
fn p435(l: RawLog, t: &[Ty]) -> Out { c2::events::evt435::parse_log(l).map(|l| { let c2::logs::Evt435 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f435(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt435::filter() }
fn p436(l: RawLog, t: &[Ty]) -> Out { c2::events::evt436::parse_log(l).map(|l| { let c2::logs::Evt436 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f436(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt436::filter(con::<bool>(c, 0), con::<Address>(c, 1)) }
fn p437(l: RawLog, t: &[Ty]) -> Out { c2::events::evt437::parse_log(l).map(|l| { let c2::logs::Evt437 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f437(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt437::filter(con::<bool>(c, 0)) }
fn p438(l: RawLog, t: &[Ty]) -> Out { c2::events::evt438::parse_log(l).map(|l| { let c2::logs::Evt438 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f438(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt438::filter(con::<Address>(c, 0)) }
fn p439(l: RawLog, t: &[Ty]) -> Out { c2::events::evt439::parse_log(l).map(|l| { let c2::logs::Evt439 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f439(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt439::filter() }
fn p440(l: RawLog, t: &[Ty]) -> Out { c2::events::evt440::parse_log(l).map(|l| { let c2::logs::Evt440 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f440(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt440::filter(con::<bool>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p441(l: RawLog, t: &[Ty]) -> Out { c2::events::evt441::parse_log(l).map(|l| { let c2::logs::Evt441 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f441(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt441::filter(con::<bool>(c, 0)) }
fn p442(l: RawLog, t: &[Ty]) -> Out { c2::events::evt442::parse_log(l).map(|l| { let c2::logs::Evt442 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f442(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt442::filter(con::<Vec<u8>>(c, 0)) }
fn p443(l: RawLog, t: &[Ty]) -> Out { c2::events::evt443::parse_log(l).map(|l| { let c2::logs::Evt443 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f443(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt443::filter() }
fn p444(l: RawLog, t: &[Ty]) -> Out { c2::events::evt444::parse_log(l).map(|l| { let c2::logs::Evt444 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f444(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt444::filter(con::<bool>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p445(l: RawLog, t: &[Ty]) -> Out { c2::events::evt445::parse_log(l).map(|l| { let c2::logs::Evt445 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f445(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt445::filter(con::<bool>(c, 0)) }
fn p446(l: RawLog, t: &[Ty]) -> Out { c2::events::evt446::parse_log(l).map(|l| { let c2::logs::Evt446 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f446(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt446::filter(con::<[u8; 4]>(c, 0)) }
fn p447(l: RawLog, t: &[Ty]) -> Out { c2::events::evt447::parse_log(l).map(|l| { let c2::logs::Evt447 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f447(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt447::filter() }
fn p448(l: RawLog, t: &[Ty]) -> Out { c2::events::evt448::parse_log(l).map(|l| { let c2::logs::Evt448 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f448(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt448::filter(con::<bool>(c, 0), con::<Uint>(c, 1)) }
fn p449(l: RawLog, t: &[Ty]) -> Out { c2::events::evt449::parse_log(l).map(|l| { let c2::logs::Evt449 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f449(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt449::filter(con::<bool>(c, 0)) }
fn p450(l: RawLog, t: &[Ty]) -> Out { c2::events::evt450::parse_log(l).map(|l| { let c2::logs::Evt450 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f450(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt450::filter(con::<Uint>(c, 0)) }
fn p451(l: RawLog, t: &[Ty]) -> Out { c2::events::evt451::parse_log(l).map(|l| { let c2::logs::Evt451 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f451(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt451::filter() }
fn p452(l: RawLog, t: &[Ty]) -> Out { c2::events::evt452::parse_log(l).map(|l| { let c2::logs::Evt452 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f452(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt452::filter(con::<bool>(c, 0), con::<String>(c, 1)) }
fn p453(l: RawLog, t: &[Ty]) -> Out { c2::events::evt453::parse_log(l).map(|l| { let c2::logs::Evt453 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f453(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt453::filter(con::<bool>(c, 0)) }
fn p454(l: RawLog, t: &[Ty]) -> Out { c2::events::evt454::parse_log(l).map(|l| { let c2::logs::Evt454 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f454(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt454::filter(con::<String>(c, 0)) }
fn p455(l: RawLog, t: &[Ty]) -> Out { c2::events::evt455::parse_log(l).map(|l| { let c2::logs::Evt455 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f455(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt455::filter() }
fn p456(l: RawLog, t: &[Ty]) -> Out { c2::events::evt456::parse_log(l).map(|l| { let c2::logs::Evt456 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f456(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt456::filter(con::<bool>(c, 0), con::<bool>(c, 1)) }
fn p457(l: RawLog, t: &[Ty]) -> Out { c2::events::evt457::parse_log(l).map(|l| { let c2::logs::Evt457 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f457(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt457::filter(con::<bool>(c, 0)) }
fn p458(l: RawLog, t: &[Ty]) -> Out { c2::events::evt458::parse_log(l).map(|l| { let c2::logs::Evt458 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f458(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt458::filter(con::<bool>(c, 0)) }
fn p459(l: RawLog, t: &[Ty]) -> Out { c2::events::evt459::parse_log(l).map(|l| { let c2::logs::Evt459 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f459(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt459::filter() }
fn p460(l: RawLog, t: &[Ty]) -> Out { c2::events::evt460::parse_log(l).map(|l| { let c2::logs::Evt460 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f460(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt460::filter(con::<bool>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p461(l: RawLog, t: &[Ty]) -> Out { c2::events::evt461::parse_log(l).map(|l| { let c2::logs::Evt461 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f461(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt461::filter(con::<bool>(c, 0)) }
fn p462(l: RawLog, t: &[Ty]) -> Out { c2::events::evt462::parse_log(l).map(|l| { let c2::logs::Evt462 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f462(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt462::filter(con::<Vec<Uint>>(c, 0)) }
fn p463(l: RawLog, t: &[Ty]) -> Out { c2::events::evt463::parse_log(l).map(|l| { let c2::logs::Evt463 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f463(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt463::filter() }
fn p464(l: RawLog, t: &[Ty]) -> Out { c2::events::evt464::parse_log(l).map(|l| { let c2::logs::Evt464 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f464(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt464::filter(con::<bool>(c, 0), con::<[String; 2]>(c, 1)) }
fn p465(l: RawLog, t: &[Ty]) -> Out { c2::events::evt465::parse_log(l).map(|l| { let c2::logs::Evt465 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f465(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt465::filter(con::<bool>(c, 0)) }
fn p466(l: RawLog, t: &[Ty]) -> Out { c2::events::evt466::parse_log(l).map(|l| { let c2::logs::Evt466 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f466(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt466::filter(con::<[String; 2]>(c, 0)) }
fn p467(l: RawLog, t: &[Ty]) -> Out { c2::events::evt467::parse_log(l).map(|l| { let c2::logs::Evt467 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f467(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt467::filter() }
fn p468(l: RawLog, t: &[Ty]) -> Out { c2::events::evt468::parse_log(l).map(|l| { let c2::logs::Evt468 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f468(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt468::filter(con::<Vec<Uint>>(c, 0), con::<Address>(c, 1)) }
fn p469(l: RawLog, t: &[Ty]) -> Out { c2::events::evt469::parse_log(l).map(|l| { let c2::logs::Evt469 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f469(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt469::filter(con::<Vec<Uint>>(c, 0)) }
fn p470(l: RawLog, t: &[Ty]) -> Out { c2::events::evt470::parse_log(l).map(|l| { let c2::logs::Evt470 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f470(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt470::filter(con::<Address>(c, 0)) }
fn p471(l: RawLog, t: &[Ty]) -> Out { c2::events::evt471::parse_log(l).map(|l| { let c2::logs::Evt471 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f471(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt471::filter() }
fn p472(l: RawLog, _: &[Ty]) -> Out { c2::events::evt472::parse_log(l).map(|l| { let c2::logs::Evt472 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f472(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt472::filter(con::<Vec<Uint>>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p473(l: RawLog, t: &[Ty]) -> Out { c2::events::evt473::parse_log(l).map(|l| { let c2::logs::Evt473 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f473(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt473::filter(con::<Vec<Uint>>(c, 0)) }
fn p474(l: RawLog, t: &[Ty]) -> Out { c2::events::evt474::parse_log(l).map(|l| { let c2::logs::Evt474 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f474(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt474::filter(con::<Vec<u8>>(c, 0)) }
fn p475(l: RawLog, t: &[Ty]) -> Out { c2::events::evt475::parse_log(l).map(|l| { let c2::logs::Evt475 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f475(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt475::filter() }
fn p476(l: RawLog, t: &[Ty]) -> Out { c2::events::evt476::parse_log(l).map(|l| { let c2::logs::Evt476 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f476(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt476::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p477(l: RawLog, t: &[Ty]) -> Out { c2::events::evt477::parse_log(l).map(|l| { let c2::logs::Evt477 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f477(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt477::filter(con::<Vec<Uint>>(c, 0)) }
fn p478(l: RawLog, t: &[Ty]) -> Out { c2::events::evt478::parse_log(l).map(|l| { let c2::logs::Evt478 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f478(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt478::filter(con::<[u8; 4]>(c, 0)) }
fn p479(l: RawLog, t: &[Ty]) -> Out { c2::events::evt479::parse_log(l).map(|l| { let c2::logs::Evt479 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f479(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt479::filter() }
fn p480(l: RawLog, t: &[Ty]) -> Out { c2::events::evt480::parse_log(l).map(|l| { let c2::logs::Evt480 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f480(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt480::filter(con::<Vec<Uint>>(c, 0), con::<Uint>(c, 1)) }
fn p481(l: RawLog, t: &[Ty]) -> Out { c2::events::evt481::parse_log(l).map(|l| { let c2::logs::Evt481 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f481(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt481::filter(con::<Vec<Uint>>(c, 0)) }
fn p482(l: RawLog, t: &[Ty]) -> Out { c2::events::evt482::parse_log(l).map(|l| { let c2::logs::Evt482 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f482(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt482::filter(con::<Uint>(c, 0)) }
fn p483(l: RawLog, t: &[Ty]) -> Out { c2::events::evt483::parse_log(l).map(|l| { let c2::logs::Evt483 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f483(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt483::filter() }
fn p484(l: RawLog, _: &[Ty]) -> Out { c2::events::evt484::parse_log(l).map(|l| { let c2::logs::Evt484 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f484(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt484::filter(con::<Vec<Uint>>(c, 0), con::<String>(c, 1)) }
fn p485(l: RawLog, t: &[Ty]) -> Out { c2::events::evt485::parse_log(l).map(|l| { let c2::logs::Evt485 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f485(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt485::filter(con::<Vec<Uint>>(c, 0)) }
fn p486(l: RawLog, t: &[Ty]) -> Out { c2::events::evt486::parse_log(l).map(|l| { let c2::logs::Evt486 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f486(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt486::filter(con::<String>(c, 0)) }
fn p487(l: RawLog, t: &[Ty]) -> Out { c2::events::evt487::parse_log(l).map(|l| { let c2::logs::Evt487 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f487(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt487::filter() }
fn p488(l: RawLog, t: &[Ty]) -> Out { c2::events::evt488::parse_log(l).map(|l| { let c2::logs::Evt488 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f488(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt488::filter(con::<Vec<Uint>>(c, 0), con::<bool>(c, 1)) }
fn p489(l: RawLog, t: &[Ty]) -> Out { c2::events::evt489::parse_log(l).map(|l| { let c2::logs::Evt489 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f489(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt489::filter(con::<Vec<Uint>>(c, 0)) }
fn p490(l: RawLog, t: &[Ty]) -> Out { c2::events::evt490::parse_log(l).map(|l| { let c2::logs::Evt490 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f490(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt490::filter(con::<bool>(c, 0)) }
fn p491(l: RawLog, t: &[Ty]) -> Out { c2::events::evt491::parse_log(l).map(|l| { let c2::logs::Evt491 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f491(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt491::filter() }
fn p492(l: RawLog, _: &[Ty]) -> Out { c2::events::evt492::parse_log(l).map(|l| { let c2::logs::Evt492 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f492(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt492::filter(con::<Vec<Uint>>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p493(l: RawLog, t: &[Ty]) -> Out { c2::events::evt493::parse_log(l).map(|l| { let c2::logs::Evt493 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f493(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt493::filter(con::<Vec<Uint>>(c, 0)) }
fn p494(l: RawLog, t: &[Ty]) -> Out { c2::events::evt494::parse_log(l).map(|l| { let c2::logs::Evt494 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f494(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt494::filter(con::<Vec<Uint>>(c, 0)) }
fn p495(l: RawLog, t: &[Ty]) -> Out { c2::events::evt495::parse_log(l).map(|l| { let c2::logs::Evt495 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f495(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt495::filter() }
fn p496(l: RawLog, _: &[Ty]) -> Out { c2::events::evt496::parse_log(l).map(|l| { let c2::logs::Evt496 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f496(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt496::filter(con::<Vec<Uint>>(c, 0), con::<[String; 2]>(c, 1)) }
fn p497(l: RawLog, t: &[Ty]) -> Out { c2::events::evt497::parse_log(l).map(|l| { let c2::logs::Evt497 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f497(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt497::filter(con::<Vec<Uint>>(c, 0)) }
fn p498(l: RawLog, t: &[Ty]) -> Out { c2::events::evt498::parse_log(l).map(|l| { let c2::logs::Evt498 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f498(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt498::filter(con::<[String; 2]>(c, 0)) }
fn p499(l: RawLog, t: &[Ty]) -> Out { c2::events::evt499::parse_log(l).map(|l| { let c2::logs::Evt499 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f499(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt499::filter() }
fn p500(l: RawLog, t: &[Ty]) -> Out { c2::events::evt500::parse_log(l).map(|l| { let c2::logs::Evt500 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f500(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt500::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p501(l: RawLog, t: &[Ty]) -> Out { c2::events::evt501::parse_log(l).map(|l| { let c2::logs::Evt501 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f501(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt501::filter(con::<[String; 2]>(c, 0)) }
fn p502(l: RawLog, t: &[Ty]) -> Out { c2::events::evt502::parse_log(l).map(|l| { let c2::logs::Evt502 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f502(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt502::filter(con::<Address>(c, 0)) }
fn p503(l: RawLog, t: &[Ty]) -> Out { c2::events::evt503::parse_log(l).map(|l| { let c2::logs::Evt503 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f503(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt503::filter() }
fn p504(l: RawLog, _: &[Ty]) -> Out { c2::events::evt504::parse_log(l).map(|l| { let c2::logs::Evt504 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f504(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt504::filter(con::<[String; 2]>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p505(l: RawLog, t: &[Ty]) -> Out { c2::events::evt505::parse_log(l).map(|l| { let c2::logs::Evt505 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f505(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt505::filter(con::<[String; 2]>(c, 0)) }
fn p506(l: RawLog, t: &[Ty]) -> Out { c2::events::evt506::parse_log(l).map(|l| { let c2::logs::Evt506 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f506(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt506::filter(con::<Vec<u8>>(c, 0)) }
fn p507(l: RawLog, t: &[Ty]) -> Out { c2::events::evt507::parse_log(l).map(|l| { let c2::logs::Evt507 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f507(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt507::filter() }
fn p508(l: RawLog, t: &[Ty]) -> Out { c2::events::evt508::parse_log(l).map(|l| { let c2::logs::Evt508 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f508(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt508::filter(con::<[String; 2]>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p509(l: RawLog, t: &[Ty]) -> Out { c2::events::evt509::parse_log(l).map(|l| { let c2::logs::Evt509 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f509(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt509::filter(con::<[String; 2]>(c, 0)) }
fn p510(l: RawLog, t: &[Ty]) -> Out { c2::events::evt510::parse_log(l).map(|l| { let c2::logs::Evt510 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f510(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt510::filter(con::<[u8; 4]>(c, 0)) }
fn p511(l: RawLog, t: &[Ty]) -> Out { c2::events::evt511::parse_log(l).map(|l| { let c2::logs::Evt511 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f511(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt511::filter() }
fn p512(l: RawLog, t: &[Ty]) -> Out { c2::events::evt512::parse_log(l).map(|l| { let c2::logs::Evt512 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f512(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt512::filter(con::<[String; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p513(l: RawLog, t: &[Ty]) -> Out { c2::events::evt513::parse_log(l).map(|l| { let c2::logs::Evt513 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f513(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt513::filter(con::<[String; 2]>(c, 0)) }
fn p514(l: RawLog, t: &[Ty]) -> Out { c2::events::evt514::parse_log(l).map(|l| { let c2::logs::Evt514 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f514(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt514::filter(con::<Uint>(c, 0)) }
fn p515(l: RawLog, t: &[Ty]) -> Out { c2::events::evt515::parse_log(l).map(|l| { let c2::logs::Evt515 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f515(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt515::filter() }
fn p516(l: RawLog, _: &[Ty]) -> Out { c2::events::evt516::parse_log(l).map(|l| { let c2::logs::Evt516 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f516(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt516::filter(con::<[String; 2]>(c, 0), con::<String>(c, 1)) }
fn p517(l: RawLog, t: &[Ty]) -> Out { c2::events::evt517::parse_log(l).map(|l| { let c2::logs::Evt517 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f517(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt517::filter(con::<[String; 2]>(c, 0)) }
fn p518(l: RawLog, t: &[Ty]) -> Out { c2::events::evt518::parse_log(l).map(|l| { let c2::logs::Evt518 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f518(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt518::filter(con::<String>(c, 0)) }
fn p519(l: RawLog, t: &[Ty]) -> Out { c2::events::evt519::parse_log(l).map(|l| { let c2::logs::Evt519 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f519(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt519::filter() }
fn p520(l: RawLog, t: &[Ty]) -> Out { c2::events::evt520::parse_log(l).map(|l| { let c2::logs::Evt520 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f520(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt520::filter(con::<[String; 2]>(c, 0), con::<bool>(c, 1)) }
fn p521(l: RawLog, t: &[Ty]) -> Out { c2::events::evt521::parse_log(l).map(|l| { let c2::logs::Evt521 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f521(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt521::filter(con::<[String; 2]>(c, 0)) }
fn p522(l: RawLog, t: &[Ty]) -> Out { c2::events::evt522::parse_log(l).map(|l| { let c2::logs::Evt522 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f522(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt522::filter(con::<bool>(c, 0)) }
fn p523(l: RawLog, t: &[Ty]) -> Out { c2::events::evt523::parse_log(l).map(|l| { let c2::logs::Evt523 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f523(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt523::filter() }
fn p524(l: RawLog, _: &[Ty]) -> Out { c2::events::evt524::parse_log(l).map(|l| { let c2::logs::Evt524 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f524(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt524::filter(con::<[String; 2]>(c, 0), con::<Vec<Uint>>(c, 1)) }
fn p525(l: RawLog, t: &[Ty]) -> Out { c2::events::evt525::parse_log(l).map(|l| { let c2::logs::Evt525 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f525(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt525::filter(con::<[String; 2]>(c, 0)) }
fn p526(l: RawLog, t: &[Ty]) -> Out { c2::events::evt526::parse_log(l).map(|l| { let c2::logs::Evt526 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f526(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt526::filter(con::<Vec<Uint>>(c, 0)) }
fn p527(l: RawLog, t: &[Ty]) -> Out { c2::events::evt527::parse_log(l).map(|l| { let c2::logs::Evt527 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f527(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt527::filter() }
fn p528(l: RawLog, _: &[Ty]) -> Out { c2::events::evt528::parse_log(l).map(|l| { let c2::logs::Evt528 { p0: f0, p1: f1 } = l; vec![hash(f0), hash(f1)] }).map_err(|e| e.to_string()) }
fn f528(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt528::filter(con::<[String; 2]>(c, 0), con::<[String; 2]>(c, 1)) }
fn p529(l: RawLog, t: &[Ty]) -> Out { c2::events::evt529::parse_log(l).map(|l| { let c2::logs::Evt529 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f529(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt529::filter(con::<[String; 2]>(c, 0)) }
fn p530(l: RawLog, t: &[Ty]) -> Out { c2::events::evt530::parse_log(l).map(|l| { let c2::logs::Evt530 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f530(c: &[Tp<Val>]) -> TopicFilter { c2::events::evt530::filter(con::<[String; 2]>(c, 0)) }
fn p531(l: RawLog, t: &[Ty]) -> Out { c2::events::evt531::parse_log(l).map(|l| { let c2::logs::Evt531 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f531(_: &[Tp<Val>]) -> TopicFilter { c2::events::evt531::filter() }
fn p532(l: RawLog, t: &[Ty]) -> Out { c3::events::evt532::parse_log(l).map(|l| { let c3::logs::Evt532 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f532(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt532::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p533(l: RawLog, t: &[Ty]) -> Out { c3::events::evt533::parse_log(l).map(|l| { let c3::logs::Evt533 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f533(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt533::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p534(l: RawLog, t: &[Ty]) -> Out { c3::events::evt534::parse_log(l).map(|l| { let c3::logs::Evt534 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f534(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt534::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p535(l: RawLog, t: &[Ty]) -> Out { c3::events::evt535::parse_log(l).map(|l| { let c3::logs::Evt535 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f535(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt535::filter(con::<Uint>(c, 0)) }
fn p536(l: RawLog, t: &[Ty]) -> Out { c3::events::evt536::parse_log(l).map(|l| { let c3::logs::Evt536 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f536(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt536::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p537(l: RawLog, t: &[Ty]) -> Out { c3::events::evt537::parse_log(l).map(|l| { let c3::logs::Evt537 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f537(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt537::filter(con::<Uint>(c, 0)) }
fn p538(l: RawLog, t: &[Ty]) -> Out { c3::events::evt538::parse_log(l).map(|l| { let c3::logs::Evt538 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f538(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt538::filter(con::<Uint>(c, 0)) }
fn p539(l: RawLog, t: &[Ty]) -> Out { c3::events::evt539::parse_log(l).map(|l| { let c3::logs::Evt539 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f539(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt539::filter() }
fn p540(l: RawLog, t: &[Ty]) -> Out { c3::events::evt540::parse_log(l).map(|l| { let c3::logs::Evt540 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f540(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt540::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p541(l: RawLog, t: &[Ty]) -> Out { c3::events::evt541::parse_log(l).map(|l| { let c3::logs::Evt541 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f541(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt541::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p542(l: RawLog, t: &[Ty]) -> Out { c3::events::evt542::parse_log(l).map(|l| { let c3::logs::Evt542 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f542(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt542::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p543(l: RawLog, t: &[Ty]) -> Out { c3::events::evt543::parse_log(l).map(|l| { let c3::logs::Evt543 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f543(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt543::filter(con::<Uint>(c, 0)) }
fn p544(l: RawLog, t: &[Ty]) -> Out { c3::events::evt544::parse_log(l).map(|l| { let c3::logs::Evt544 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f544(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt544::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p545(l: RawLog, t: &[Ty]) -> Out { c3::events::evt545::parse_log(l).map(|l| { let c3::logs::Evt545 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f545(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt545::filter(con::<Uint>(c, 0)) }
fn p546(l: RawLog, t: &[Ty]) -> Out { c3::events::evt546::parse_log(l).map(|l| { let c3::logs::Evt546 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f546(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt546::filter(con::<String>(c, 0)) }
fn p547(l: RawLog, t: &[Ty]) -> Out { c3::events::evt547::parse_log(l).map(|l| { let c3::logs::Evt547 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f547(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt547::filter() }
fn p548(l: RawLog, t: &[Ty]) -> Out { c3::events::evt548::parse_log(l).map(|l| { let c3::logs::Evt548 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f548(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt548::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p549(l: RawLog, t: &[Ty]) -> Out { c3::events::evt549::parse_log(l).map(|l| { let c3::logs::Evt549 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f549(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt549::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p550(l: RawLog, t: &[Ty]) -> Out { c3::events::evt550::parse_log(l).map(|l| { let c3::logs::Evt550 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f550(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt550::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p551(l: RawLog, t: &[Ty]) -> Out { c3::events::evt551::parse_log(l).map(|l| { let c3::logs::Evt551 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f551(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt551::filter(con::<Uint>(c, 0)) }
fn p552(l: RawLog, t: &[Ty]) -> Out { c3::events::evt552::parse_log(l).map(|l| { let c3::logs::Evt552 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f552(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt552::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p553(l: RawLog, t: &[Ty]) -> Out { c3::events::evt553::parse_log(l).map(|l| { let c3::logs::Evt553 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f553(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt553::filter(con::<Uint>(c, 0)) }
fn p554(l: RawLog, t: &[Ty]) -> Out { c3::events::evt554::parse_log(l).map(|l| { let c3::logs::Evt554 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f554(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt554::filter(con::<[bool; 2]>(c, 0)) }
fn p555(l: RawLog, t: &[Ty]) -> Out { c3::events::evt555::parse_log(l).map(|l| { let c3::logs::Evt555 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f555(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt555::filter() }
fn p556(l: RawLog, t: &[Ty]) -> Out { c3::events::evt556::parse_log(l).map(|l| { let c3::logs::Evt556 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f556(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt556::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p557(l: RawLog, t: &[Ty]) -> Out { c3::events::evt557::parse_log(l).map(|l| { let c3::logs::Evt557 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f557(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt557::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p558(l: RawLog, t: &[Ty]) -> Out { c3::events::evt558::parse_log(l).map(|l| { let c3::logs::Evt558 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f558(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt558::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p559(l: RawLog, t: &[Ty]) -> Out { c3::events::evt559::parse_log(l).map(|l| { let c3::logs::Evt559 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f559(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt559::filter(con::<Uint>(c, 0)) }
fn p560(l: RawLog, t: &[Ty]) -> Out { c3::events::evt560::parse_log(l).map(|l| { let c3::logs::Evt560 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f560(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt560::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p561(l: RawLog, t: &[Ty]) -> Out { c3::events::evt561::parse_log(l).map(|l| { let c3::logs::Evt561 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f561(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt561::filter(con::<String>(c, 0)) }
fn p562(l: RawLog, t: &[Ty]) -> Out { c3::events::evt562::parse_log(l).map(|l| { let c3::logs::Evt562 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f562(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt562::filter(con::<Uint>(c, 0)) }
fn p563(l: RawLog, t: &[Ty]) -> Out { c3::events::evt563::parse_log(l).map(|l| { let c3::logs::Evt563 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f563(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt563::filter() }
fn p564(l: RawLog, t: &[Ty]) -> Out { c3::events::evt564::parse_log(l).map(|l| { let c3::logs::Evt564 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f564(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt564::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p565(l: RawLog, t: &[Ty]) -> Out { c3::events::evt565::parse_log(l).map(|l| { let c3::logs::Evt565 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f565(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt565::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p566(l: RawLog, t: &[Ty]) -> Out { c3::events::evt566::parse_log(l).map(|l| { let c3::logs::Evt566 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f566(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt566::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p567(l: RawLog, t: &[Ty]) -> Out { c3::events::evt567::parse_log(l).map(|l| { let c3::logs::Evt567 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f567(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt567::filter(con::<Uint>(c, 0)) }
fn p568(l: RawLog, t: &[Ty]) -> Out { c3::events::evt568::parse_log(l).map(|l| { let c3::logs::Evt568 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f568(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt568::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p569(l: RawLog, t: &[Ty]) -> Out { c3::events::evt569::parse_log(l).map(|l| { let c3::logs::Evt569 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f569(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt569::filter(con::<String>(c, 0)) }
fn p570(l: RawLog, t: &[Ty]) -> Out { c3::events::evt570::parse_log(l).map(|l| { let c3::logs::Evt570 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f570(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt570::filter(con::<String>(c, 0)) }
fn p571(l: RawLog, t: &[Ty]) -> Out { c3::events::evt571::parse_log(l).map(|l| { let c3::logs::Evt571 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f571(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt571::filter() }
fn p572(l: RawLog, t: &[Ty]) -> Out { c3::events::evt572::parse_log(l).map(|l| { let c3::logs::Evt572 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f572(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt572::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p573(l: RawLog, t: &[Ty]) -> Out { c3::events::evt573::parse_log(l).map(|l| { let c3::logs::Evt573 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f573(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt573::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p574(l: RawLog, t: &[Ty]) -> Out { c3::events::evt574::parse_log(l).map(|l| { let c3::logs::Evt574 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f574(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt574::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p575(l: RawLog, t: &[Ty]) -> Out { c3::events::evt575::parse_log(l).map(|l| { let c3::logs::Evt575 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f575(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt575::filter(con::<Uint>(c, 0)) }
fn p576(l: RawLog, t: &[Ty]) -> Out { c3::events::evt576::parse_log(l).map(|l| { let c3::logs::Evt576 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f576(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt576::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p577(l: RawLog, t: &[Ty]) -> Out { c3::events::evt577::parse_log(l).map(|l| { let c3::logs::Evt577 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f577(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt577::filter(con::<String>(c, 0)) }
fn p578(l: RawLog, t: &[Ty]) -> Out { c3::events::evt578::parse_log(l).map(|l| { let c3::logs::Evt578 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f578(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt578::filter(con::<[bool; 2]>(c, 0)) }
fn p579(l: RawLog, t: &[Ty]) -> Out { c3::events::evt579::parse_log(l).map(|l| { let c3::logs::Evt579 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f579(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt579::filter() }
fn p580(l: RawLog, t: &[Ty]) -> Out { c3::events::evt580::parse_log(l).map(|l| { let c3::logs::Evt580 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f580(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt580::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1), con::<Uint>(c, 2)) }
fn p581(l: RawLog, t: &[Ty]) -> Out { c3::events::evt581::parse_log(l).map(|l| { let c3::logs::Evt581 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f581(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt581::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p582(l: RawLog, t: &[Ty]) -> Out { c3::events::evt582::parse_log(l).map(|l| { let c3::logs::Evt582 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f582(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt582::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p583(l: RawLog, t: &[Ty]) -> Out { c3::events::evt583::parse_log(l).map(|l| { let c3::logs::Evt583 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f583(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt583::filter(con::<Uint>(c, 0)) }
fn p584(l: RawLog, t: &[Ty]) -> Out { c3::events::evt584::parse_log(l).map(|l| { let c3::logs::Evt584 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f584(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt584::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p585(l: RawLog, t: &[Ty]) -> Out { c3::events::evt585::parse_log(l).map(|l| { let c3::logs::Evt585 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f585(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt585::filter(con::<[bool; 2]>(c, 0)) }
fn p586(l: RawLog, t: &[Ty]) -> Out { c3::events::evt586::parse_log(l).map(|l| { let c3::logs::Evt586 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f586(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt586::filter(con::<Uint>(c, 0)) }
fn p587(l: RawLog, t: &[Ty]) -> Out { c3::events::evt587::parse_log(l).map(|l| { let c3::logs::Evt587 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f587(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt587::filter() }
fn p588(l: RawLog, t: &[Ty]) -> Out { c3::events::evt588::parse_log(l).map(|l| { let c3::logs::Evt588 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f588(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt588::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1), con::<String>(c, 2)) }
fn p589(l: RawLog, t: &[Ty]) -> Out { c3::events::evt589::parse_log(l).map(|l| { let c3::logs::Evt589 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f589(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt589::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p590(l: RawLog, t: &[Ty]) -> Out { c3::events::evt590::parse_log(l).map(|l| { let c3::logs::Evt590 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f590(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt590::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p591(l: RawLog, t: &[Ty]) -> Out { c3::events::evt591::parse_log(l).map(|l| { let c3::logs::Evt591 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f591(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt591::filter(con::<Uint>(c, 0)) }
fn p592(l: RawLog, t: &[Ty]) -> Out { c3::events::evt592::parse_log(l).map(|l| { let c3::logs::Evt592 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f592(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt592::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p593(l: RawLog, t: &[Ty]) -> Out { c3::events::evt593::parse_log(l).map(|l| { let c3::logs::Evt593 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f593(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt593::filter(con::<[bool; 2]>(c, 0)) }
fn p594(l: RawLog, t: &[Ty]) -> Out { c3::events::evt594::parse_log(l).map(|l| { let c3::logs::Evt594 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f594(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt594::filter(con::<String>(c, 0)) }
fn p595(l: RawLog, t: &[Ty]) -> Out { c3::events::evt595::parse_log(l).map(|l| { let c3::logs::Evt595 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f595(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt595::filter() }
fn p596(l: RawLog, t: &[Ty]) -> Out { c3::events::evt596::parse_log(l).map(|l| { let c3::logs::Evt596 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f596(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt596::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p597(l: RawLog, t: &[Ty]) -> Out { c3::events::evt597::parse_log(l).map(|l| { let c3::logs::Evt597 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f597(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt597::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p598(l: RawLog, t: &[Ty]) -> Out { c3::events::evt598::parse_log(l).map(|l| { let c3::logs::Evt598 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f598(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt598::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p599(l: RawLog, t: &[Ty]) -> Out { c3::events::evt599::parse_log(l).map(|l| { let c3::logs::Evt599 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f599(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt599::filter(con::<Uint>(c, 0)) }
fn p600(l: RawLog, t: &[Ty]) -> Out { c3::events::evt600::parse_log(l).map(|l| { let c3::logs::Evt600 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f600(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt600::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p601(l: RawLog, t: &[Ty]) -> Out { c3::events::evt601::parse_log(l).map(|l| { let c3::logs::Evt601 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f601(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt601::filter(con::<[bool; 2]>(c, 0)) }
fn p602(l: RawLog, t: &[Ty]) -> Out { c3::events::evt602::parse_log(l).map(|l| { let c3::logs::Evt602 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f602(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt602::filter(con::<[bool; 2]>(c, 0)) }
fn p603(l: RawLog, t: &[Ty]) -> Out { c3::events::evt603::parse_log(l).map(|l| { let c3::logs::Evt603 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f603(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt603::filter() }
fn p604(l: RawLog, t: &[Ty]) -> Out { c3::events::evt604::parse_log(l).map(|l| { let c3::logs::Evt604 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f604(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt604::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p605(l: RawLog, t: &[Ty]) -> Out { c3::events::evt605::parse_log(l).map(|l| { let c3::logs::Evt605 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f605(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt605::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p606(l: RawLog, t: &[Ty]) -> Out { c3::events::evt606::parse_log(l).map(|l| { let c3::logs::Evt606 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f606(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt606::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p607(l: RawLog, t: &[Ty]) -> Out { c3::events::evt607::parse_log(l).map(|l| { let c3::logs::Evt607 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f607(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt607::filter(con::<String>(c, 0)) }
fn p608(l: RawLog, t: &[Ty]) -> Out { c3::events::evt608::parse_log(l).map(|l| { let c3::logs::Evt608 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f608(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt608::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p609(l: RawLog, t: &[Ty]) -> Out { c3::events::evt609::parse_log(l).map(|l| { let c3::logs::Evt609 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f609(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt609::filter(con::<Uint>(c, 0)) }
fn p610(l: RawLog, t: &[Ty]) -> Out { c3::events::evt610::parse_log(l).map(|l| { let c3::logs::Evt610 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f610(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt610::filter(con::<Uint>(c, 0)) }
fn p611(l: RawLog, t: &[Ty]) -> Out { c3::events::evt611::parse_log(l).map(|l| { let c3::logs::Evt611 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f611(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt611::filter() }
fn p612(l: RawLog, t: &[Ty]) -> Out { c3::events::evt612::parse_log(l).map(|l| { let c3::logs::Evt612 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f612(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt612::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p613(l: RawLog, t: &[Ty]) -> Out { c3::events::evt613::parse_log(l).map(|l| { let c3::logs::Evt613 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f613(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt613::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p614(l: RawLog, t: &[Ty]) -> Out { c3::events::evt614::parse_log(l).map(|l| { let c3::logs::Evt614 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f614(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt614::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p615(l: RawLog, t: &[Ty]) -> Out { c3::events::evt615::parse_log(l).map(|l| { let c3::logs::Evt615 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f615(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt615::filter(con::<String>(c, 0)) }
fn p616(l: RawLog, t: &[Ty]) -> Out { c3::events::evt616::parse_log(l).map(|l| { let c3::logs::Evt616 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f616(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt616::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p617(l: RawLog, t: &[Ty]) -> Out { c3::events::evt617::parse_log(l).map(|l| { let c3::logs::Evt617 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f617(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt617::filter(con::<Uint>(c, 0)) }
fn p618(l: RawLog, t: &[Ty]) -> Out { c3::events::evt618::parse_log(l).map(|l| { let c3::logs::Evt618 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f618(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt618::filter(con::<String>(c, 0)) }
fn p619(l: RawLog, t: &[Ty]) -> Out { c3::events::evt619::parse_log(l).map(|l| { let c3::logs::Evt619 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f619(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt619::filter() }
fn p620(l: RawLog, t: &[Ty]) -> Out { c3::events::evt620::parse_log(l).map(|l| { let c3::logs::Evt620 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f620(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt620::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p621(l: RawLog, t: &[Ty]) -> Out { c3::events::evt621::parse_log(l).map(|l| { let c3::logs::Evt621 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f621(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt621::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p622(l: RawLog, t: &[Ty]) -> Out { c3::events::evt622::parse_log(l).map(|l| { let c3::logs::Evt622 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f622(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt622::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p623(l: RawLog, t: &[Ty]) -> Out { c3::events::evt623::parse_log(l).map(|l| { let c3::logs::Evt623 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f623(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt623::filter(con::<String>(c, 0)) }
fn p624(l: RawLog, t: &[Ty]) -> Out { c3::events::evt624::parse_log(l).map(|l| { let c3::logs::Evt624 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f624(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt624::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p625(l: RawLog, t: &[Ty]) -> Out { c3::events::evt625::parse_log(l).map(|l| { let c3::logs::Evt625 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f625(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt625::filter(con::<Uint>(c, 0)) }
fn p626(l: RawLog, t: &[Ty]) -> Out { c3::events::evt626::parse_log(l).map(|l| { let c3::logs::Evt626 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f626(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt626::filter(con::<[bool; 2]>(c, 0)) }
fn p627(l: RawLog, t: &[Ty]) -> Out { c3::events::evt627::parse_log(l).map(|l| { let c3::logs::Evt627 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f627(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt627::filter() }
fn p628(l: RawLog, t: &[Ty]) -> Out { c3::events::evt628::parse_log(l).map(|l| { let c3::logs::Evt628 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f628(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt628::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p629(l: RawLog, t: &[Ty]) -> Out { c3::events::evt629::parse_log(l).map(|l| { let c3::logs::Evt629 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f629(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt629::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p630(l: RawLog, t: &[Ty]) -> Out { c3::events::evt630::parse_log(l).map(|l| { let c3::logs::Evt630 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f630(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt630::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p631(l: RawLog, t: &[Ty]) -> Out { c3::events::evt631::parse_log(l).map(|l| { let c3::logs::Evt631 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f631(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt631::filter(con::<String>(c, 0)) }
fn p632(l: RawLog, t: &[Ty]) -> Out { c3::events::evt632::parse_log(l).map(|l| { let c3::logs::Evt632 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f632(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt632::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p633(l: RawLog, t: &[Ty]) -> Out { c3::events::evt633::parse_log(l).map(|l| { let c3::logs::Evt633 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f633(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt633::filter(con::<String>(c, 0)) }
fn p634(l: RawLog, t: &[Ty]) -> Out { c3::events::evt634::parse_log(l).map(|l| { let c3::logs::Evt634 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f634(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt634::filter(con::<Uint>(c, 0)) }
fn p635(l: RawLog, t: &[Ty]) -> Out { c3::events::evt635::parse_log(l).map(|l| { let c3::logs::Evt635 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f635(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt635::filter() }
fn p636(l: RawLog, _: &[Ty]) -> Out { c3::events::evt636::parse_log(l).map(|l| { let c3::logs::Evt636 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f636(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt636::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p637(l: RawLog, t: &[Ty]) -> Out { c3::events::evt637::parse_log(l).map(|l| { let c3::logs::Evt637 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f637(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt637::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p638(l: RawLog, t: &[Ty]) -> Out { c3::events::evt638::parse_log(l).map(|l| { let c3::logs::Evt638 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f638(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt638::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p639(l: RawLog, t: &[Ty]) -> Out { c3::events::evt639::parse_log(l).map(|l| { let c3::logs::Evt639 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f639(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt639::filter(con::<String>(c, 0)) }
fn p640(l: RawLog, t: &[Ty]) -> Out { c3::events::evt640::parse_log(l).map(|l| { let c3::logs::Evt640 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f640(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt640::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p641(l: RawLog, t: &[Ty]) -> Out { c3::events::evt641::parse_log(l).map(|l| { let c3::logs::Evt641 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f641(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt641::filter(con::<String>(c, 0)) }
fn p642(l: RawLog, t: &[Ty]) -> Out { c3::events::evt642::parse_log(l).map(|l| { let c3::logs::Evt642 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f642(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt642::filter(con::<String>(c, 0)) }
fn p643(l: RawLog, t: &[Ty]) -> Out { c3::events::evt643::parse_log(l).map(|l| { let c3::logs::Evt643 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f643(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt643::filter() }
fn p644(l: RawLog, _: &[Ty]) -> Out { c3::events::evt644::parse_log(l).map(|l| { let c3::logs::Evt644 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f644(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt644::filter(con::<String>(c, 0), con::<String>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p645(l: RawLog, t: &[Ty]) -> Out { c3::events::evt645::parse_log(l).map(|l| { let c3::logs::Evt645 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f645(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt645::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p646(l: RawLog, t: &[Ty]) -> Out { c3::events::evt646::parse_log(l).map(|l| { let c3::logs::Evt646 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f646(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt646::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p647(l: RawLog, t: &[Ty]) -> Out { c3::events::evt647::parse_log(l).map(|l| { let c3::logs::Evt647 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f647(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt647::filter(con::<String>(c, 0)) }
fn p648(l: RawLog, t: &[Ty]) -> Out { c3::events::evt648::parse_log(l).map(|l| { let c3::logs::Evt648 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f648(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt648::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p649(l: RawLog, t: &[Ty]) -> Out { c3::events::evt649::parse_log(l).map(|l| { let c3::logs::Evt649 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f649(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt649::filter(con::<String>(c, 0)) }
fn p650(l: RawLog, t: &[Ty]) -> Out { c3::events::evt650::parse_log(l).map(|l| { let c3::logs::Evt650 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f650(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt650::filter(con::<[bool; 2]>(c, 0)) }
fn p651(l: RawLog, t: &[Ty]) -> Out { c3::events::evt651::parse_log(l).map(|l| { let c3::logs::Evt651 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f651(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt651::filter() }
fn p652(l: RawLog, t: &[Ty]) -> Out { c3::events::evt652::parse_log(l).map(|l| { let c3::logs::Evt652 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f652(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt652::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1), con::<Uint>(c, 2)) }
fn p653(l: RawLog, t: &[Ty]) -> Out { c3::events::evt653::parse_log(l).map(|l| { let c3::logs::Evt653 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f653(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt653::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p654(l: RawLog, t: &[Ty]) -> Out { c3::events::evt654::parse_log(l).map(|l| { let c3::logs::Evt654 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f654(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt654::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p655(l: RawLog, t: &[Ty]) -> Out { c3::events::evt655::parse_log(l).map(|l| { let c3::logs::Evt655 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f655(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt655::filter(con::<String>(c, 0)) }
fn p656(l: RawLog, t: &[Ty]) -> Out { c3::events::evt656::parse_log(l).map(|l| { let c3::logs::Evt656 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f656(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt656::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p657(l: RawLog, t: &[Ty]) -> Out { c3::events::evt657::parse_log(l).map(|l| { let c3::logs::Evt657 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f657(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt657::filter(con::<[bool; 2]>(c, 0)) }
fn p658(l: RawLog, t: &[Ty]) -> Out { c3::events::evt658::parse_log(l).map(|l| { let c3::logs::Evt658 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f658(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt658::filter(con::<Uint>(c, 0)) }
fn p659(l: RawLog, t: &[Ty]) -> Out { c3::events::evt659::parse_log(l).map(|l| { let c3::logs::Evt659 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f659(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt659::filter() }
fn p660(l: RawLog, _: &[Ty]) -> Out { c3::events::evt660::parse_log(l).map(|l| { let c3::logs::Evt660 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f660(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt660::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1), con::<String>(c, 2)) }
fn p661(l: RawLog, t: &[Ty]) -> Out { c3::events::evt661::parse_log(l).map(|l| { let c3::logs::Evt661 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f661(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt661::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p662(l: RawLog, t: &[Ty]) -> Out { c3::events::evt662::parse_log(l).map(|l| { let c3::logs::Evt662 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f662(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt662::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p663(l: RawLog, t: &[Ty]) -> Out { c3::events::evt663::parse_log(l).map(|l| { let c3::logs::Evt663 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f663(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt663::filter(con::<String>(c, 0)) }
fn p664(l: RawLog, t: &[Ty]) -> Out { c3::events::evt664::parse_log(l).map(|l| { let c3::logs::Evt664 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f664(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt664::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p665(l: RawLog, t: &[Ty]) -> Out { c3::events::evt665::parse_log(l).map(|l| { let c3::logs::Evt665 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f665(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt665::filter(con::<[bool; 2]>(c, 0)) }
fn p666(l: RawLog, t: &[Ty]) -> Out { c3::events::evt666::parse_log(l).map(|l| { let c3::logs::Evt666 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f666(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt666::filter(con::<String>(c, 0)) }
fn p667(l: RawLog, t: &[Ty]) -> Out { c3::events::evt667::parse_log(l).map(|l| { let c3::logs::Evt667 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f667(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt667::filter() }
fn p668(l: RawLog, _: &[Ty]) -> Out { c3::events::evt668::parse_log(l).map(|l| { let c3::logs::Evt668 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f668(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt668::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p669(l: RawLog, t: &[Ty]) -> Out { c3::events::evt669::parse_log(l).map(|l| { let c3::logs::Evt669 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f669(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt669::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p670(l: RawLog, t: &[Ty]) -> Out { c3::events::evt670::parse_log(l).map(|l| { let c3::logs::Evt670 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f670(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt670::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p671(l: RawLog, t: &[Ty]) -> Out { c3::events::evt671::parse_log(l).map(|l| { let c3::logs::Evt671 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f671(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt671::filter(con::<String>(c, 0)) }
fn p672(l: RawLog, t: &[Ty]) -> Out { c3::events::evt672::parse_log(l).map(|l| { let c3::logs::Evt672 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f672(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt672::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p673(l: RawLog, t: &[Ty]) -> Out { c3::events::evt673::parse_log(l).map(|l| { let c3::logs::Evt673 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f673(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt673::filter(con::<[bool; 2]>(c, 0)) }
fn p674(l: RawLog, t: &[Ty]) -> Out { c3::events::evt674::parse_log(l).map(|l| { let c3::logs::Evt674 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f674(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt674::filter(con::<[bool; 2]>(c, 0)) }
fn p675(l: RawLog, t: &[Ty]) -> Out { c3::events::evt675::parse_log(l).map(|l| { let c3::logs::Evt675 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f675(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt675::filter() }
fn p676(l: RawLog, t: &[Ty]) -> Out { c3::events::evt676::parse_log(l).map(|l| { let c3::logs::Evt676 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f676(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt676::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p677(l: RawLog, t: &[Ty]) -> Out { c3::events::evt677::parse_log(l).map(|l| { let c3::logs::Evt677 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f677(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt677::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p678(l: RawLog, t: &[Ty]) -> Out { c3::events::evt678::parse_log(l).map(|l| { let c3::logs::Evt678 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f678(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt678::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p679(l: RawLog, t: &[Ty]) -> Out { c3::events::evt679::parse_log(l).map(|l| { let c3::logs::Evt679 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f679(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt679::filter(con::<[bool; 2]>(c, 0)) }
fn p680(l: RawLog, t: &[Ty]) -> Out { c3::events::evt680::parse_log(l).map(|l| { let c3::logs::Evt680 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f680(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt680::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p681(l: RawLog, t: &[Ty]) -> Out { c3::events::evt681::parse_log(l).map(|l| { let c3::logs::Evt681 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f681(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt681::filter(con::<Uint>(c, 0)) }
fn p682(l: RawLog, t: &[Ty]) -> Out { c3::events::evt682::parse_log(l).map(|l| { let c3::logs::Evt682 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f682(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt682::filter(con::<Uint>(c, 0)) }
fn p683(l: RawLog, t: &[Ty]) -> Out { c3::events::evt683::parse_log(l).map(|l| { let c3::logs::Evt683 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f683(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt683::filter() }
fn p684(l: RawLog, t: &[Ty]) -> Out { c3::events::evt684::parse_log(l).map(|l| { let c3::logs::Evt684 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f684(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt684::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p685(l: RawLog, t: &[Ty]) -> Out { c3::events::evt685::parse_log(l).map(|l| { let c3::logs::Evt685 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f685(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt685::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p686(l: RawLog, t: &[Ty]) -> Out { c3::events::evt686::parse_log(l).map(|l| { let c3::logs::Evt686 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f686(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt686::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p687(l: RawLog, t: &[Ty]) -> Out { c3::events::evt687::parse_log(l).map(|l| { let c3::logs::Evt687 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f687(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt687::filter(con::<[bool; 2]>(c, 0)) }
fn p688(l: RawLog, t: &[Ty]) -> Out { c3::events::evt688::parse_log(l).map(|l| { let c3::logs::Evt688 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f688(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt688::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p689(l: RawLog, t: &[Ty]) -> Out { c3::events::evt689::parse_log(l).map(|l| { let c3::logs::Evt689 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f689(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt689::filter(con::<Uint>(c, 0)) }
fn p690(l: RawLog, t: &[Ty]) -> Out { c3::events::evt690::parse_log(l).map(|l| { let c3::logs::Evt690 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f690(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt690::filter(con::<String>(c, 0)) }
fn p691(l: RawLog, t: &[Ty]) -> Out { c3::events::evt691::parse_log(l).map(|l| { let c3::logs::Evt691 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f691(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt691::filter() }
fn p692(l: RawLog, t: &[Ty]) -> Out { c3::events::evt692::parse_log(l).map(|l| { let c3::logs::Evt692 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f692(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt692::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p693(l: RawLog, t: &[Ty]) -> Out { c3::events::evt693::parse_log(l).map(|l| { let c3::logs::Evt693 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f693(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt693::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p694(l: RawLog, t: &[Ty]) -> Out { c3::events::evt694::parse_log(l).map(|l| { let c3::logs::Evt694 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f694(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt694::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p695(l: RawLog, t: &[Ty]) -> Out { c3::events::evt695::parse_log(l).map(|l| { let c3::logs::Evt695 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f695(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt695::filter(con::<[bool; 2]>(c, 0)) }
fn p696(l: RawLog, t: &[Ty]) -> Out { c3::events::evt696::parse_log(l).map(|l| { let c3::logs::Evt696 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f696(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt696::filter(con::<Uint>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p697(l: RawLog, t: &[Ty]) -> Out { c3::events::evt697::parse_log(l).map(|l| { let c3::logs::Evt697 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f697(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt697::filter(con::<Uint>(c, 0)) }
fn p698(l: RawLog, t: &[Ty]) -> Out { c3::events::evt698::parse_log(l).map(|l| { let c3::logs::Evt698 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f698(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt698::filter(con::<[bool; 2]>(c, 0)) }
fn p699(l: RawLog, t: &[Ty]) -> Out { c3::events::evt699::parse_log(l).map(|l| { let c3::logs::Evt699 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f699(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt699::filter() }
fn p700(l: RawLog, t: &[Ty]) -> Out { c3::events::evt700::parse_log(l).map(|l| { let c3::logs::Evt700 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f700(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt700::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p701(l: RawLog, t: &[Ty]) -> Out { c3::events::evt701::parse_log(l).map(|l| { let c3::logs::Evt701 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f701(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt701::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p702(l: RawLog, t: &[Ty]) -> Out { c3::events::evt702::parse_log(l).map(|l| { let c3::logs::Evt702 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f702(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt702::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p703(l: RawLog, t: &[Ty]) -> Out { c3::events::evt703::parse_log(l).map(|l| { let c3::logs::Evt703 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f703(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt703::filter(con::<[bool; 2]>(c, 0)) }
fn p704(l: RawLog, t: &[Ty]) -> Out { c3::events::evt704::parse_log(l).map(|l| { let c3::logs::Evt704 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f704(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt704::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p705(l: RawLog, t: &[Ty]) -> Out { c3::events::evt705::parse_log(l).map(|l| { let c3::logs::Evt705 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f705(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt705::filter(con::<String>(c, 0)) }
fn p706(l: RawLog, t: &[Ty]) -> Out { c3::events::evt706::parse_log(l).map(|l| { let c3::logs::Evt706 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f706(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt706::filter(con::<Uint>(c, 0)) }
fn p707(l: RawLog, t: &[Ty]) -> Out { c3::events::evt707::parse_log(l).map(|l| { let c3::logs::Evt707 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f707(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt707::filter() }
fn p708(l: RawLog, _: &[Ty]) -> Out { c3::events::evt708::parse_log(l).map(|l| { let c3::logs::Evt708 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f708(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt708::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p709(l: RawLog, t: &[Ty]) -> Out { c3::events::evt709::parse_log(l).map(|l| { let c3::logs::Evt709 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f709(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt709::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p710(l: RawLog, t: &[Ty]) -> Out { c3::events::evt710::parse_log(l).map(|l| { let c3::logs::Evt710 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f710(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt710::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p711(l: RawLog, t: &[Ty]) -> Out { c3::events::evt711::parse_log(l).map(|l| { let c3::logs::Evt711 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f711(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt711::filter(con::<[bool; 2]>(c, 0)) }
fn p712(l: RawLog, t: &[Ty]) -> Out { c3::events::evt712::parse_log(l).map(|l| { let c3::logs::Evt712 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f712(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt712::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p713(l: RawLog, t: &[Ty]) -> Out { c3::events::evt713::parse_log(l).map(|l| { let c3::logs::Evt713 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f713(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt713::filter(con::<String>(c, 0)) }
fn p714(l: RawLog, t: &[Ty]) -> Out { c3::events::evt714::parse_log(l).map(|l| { let c3::logs::Evt714 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f714(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt714::filter(con::<String>(c, 0)) }
fn p715(l: RawLog, t: &[Ty]) -> Out { c3::events::evt715::parse_log(l).map(|l| { let c3::logs::Evt715 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f715(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt715::filter() }
fn p716(l: RawLog, _: &[Ty]) -> Out { c3::events::evt716::parse_log(l).map(|l| { let c3::logs::Evt716 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f716(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt716::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p717(l: RawLog, t: &[Ty]) -> Out { c3::events::evt717::parse_log(l).map(|l| { let c3::logs::Evt717 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f717(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt717::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p718(l: RawLog, t: &[Ty]) -> Out { c3::events::evt718::parse_log(l).map(|l| { let c3::logs::Evt718 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f718(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt718::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p719(l: RawLog, t: &[Ty]) -> Out { c3::events::evt719::parse_log(l).map(|l| { let c3::logs::Evt719 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f719(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt719::filter(con::<[bool; 2]>(c, 0)) }
fn p720(l: RawLog, t: &[Ty]) -> Out { c3::events::evt720::parse_log(l).map(|l| { let c3::logs::Evt720 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f720(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt720::filter(con::<String>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p721(l: RawLog, t: &[Ty]) -> Out { c3::events::evt721::parse_log(l).map(|l| { let c3::logs::Evt721 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f721(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt721::filter(con::<String>(c, 0)) }
fn p722(l: RawLog, t: &[Ty]) -> Out { c3::events::evt722::parse_log(l).map(|l| { let c3::logs::Evt722 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f722(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt722::filter(con::<[bool; 2]>(c, 0)) }
fn p723(l: RawLog, t: &[Ty]) -> Out { c3::events::evt723::parse_log(l).map(|l| { let c3::logs::Evt723 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f723(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt723::filter() }
fn p724(l: RawLog, t: &[Ty]) -> Out { c3::events::evt724::parse_log(l).map(|l| { let c3::logs::Evt724 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f724(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt724::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1), con::<Uint>(c, 2)) }
fn p725(l: RawLog, t: &[Ty]) -> Out { c3::events::evt725::parse_log(l).map(|l| { let c3::logs::Evt725 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f725(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt725::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p726(l: RawLog, t: &[Ty]) -> Out { c3::events::evt726::parse_log(l).map(|l| { let c3::logs::Evt726 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f726(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt726::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p727(l: RawLog, t: &[Ty]) -> Out { c3::events::evt727::parse_log(l).map(|l| { let c3::logs::Evt727 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f727(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt727::filter(con::<[bool; 2]>(c, 0)) }
fn p728(l: RawLog, t: &[Ty]) -> Out { c3::events::evt728::parse_log(l).map(|l| { let c3::logs::Evt728 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f728(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt728::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p729(l: RawLog, t: &[Ty]) -> Out { c3::events::evt729::parse_log(l).map(|l| { let c3::logs::Evt729 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f729(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt729::filter(con::<[bool; 2]>(c, 0)) }
fn p730(l: RawLog, t: &[Ty]) -> Out { c3::events::evt730::parse_log(l).map(|l| { let c3::logs::Evt730 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f730(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt730::filter(con::<Uint>(c, 0)) }
fn p731(l: RawLog, t: &[Ty]) -> Out { c3::events::evt731::parse_log(l).map(|l| { let c3::logs::Evt731 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f731(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt731::filter() }
fn p732(l: RawLog, _: &[Ty]) -> Out { c3::events::evt732::parse_log(l).map(|l| { let c3::logs::Evt732 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f732(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt732::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1), con::<String>(c, 2)) }
fn p733(l: RawLog, t: &[Ty]) -> Out { c3::events::evt733::parse_log(l).map(|l| { let c3::logs::Evt733 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f733(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt733::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p734(l: RawLog, t: &[Ty]) -> Out { c3::events::evt734::parse_log(l).map(|l| { let c3::logs::Evt734 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f734(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt734::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p735(l: RawLog, t: &[Ty]) -> Out { c3::events::evt735::parse_log(l).map(|l| { let c3::logs::Evt735 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f735(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt735::filter(con::<[bool; 2]>(c, 0)) }
fn p736(l: RawLog, t: &[Ty]) -> Out { c3::events::evt736::parse_log(l).map(|l| { let c3::logs::Evt736 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f736(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt736::filter(con::<[bool; 2]>(c, 0), con::<String>(c, 1)) }
fn p737(l: RawLog, t: &[Ty]) -> Out { c3::events::evt737::parse_log(l).map(|l| { let c3::logs::Evt737 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f737(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt737::filter(con::<[bool; 2]>(c, 0)) }
fn p738(l: RawLog, t: &[Ty]) -> Out { c3::events::evt738::parse_log(l).map(|l| { let c3::logs::Evt738 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f738(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt738::filter(con::<String>(c, 0)) }
fn p739(l: RawLog, t: &[Ty]) -> Out { c3::events::evt739::parse_log(l).map(|l| { let c3::logs::Evt739 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f739(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt739::filter() }
fn p740(l: RawLog, _: &[Ty]) -> Out { c3::events::evt740::parse_log(l).map(|l| { let c3::logs::Evt740 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f740(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt740::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1), con::<[bool; 2]>(c, 2)) }
fn p741(l: RawLog, t: &[Ty]) -> Out { c3::events::evt741::parse_log(l).map(|l| { let c3::logs::Evt741 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f741(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt741::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p742(l: RawLog, t: &[Ty]) -> Out { c3::events::evt742::parse_log(l).map(|l| { let c3::logs::Evt742 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f742(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt742::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p743(l: RawLog, t: &[Ty]) -> Out { c3::events::evt743::parse_log(l).map(|l| { let c3::logs::Evt743 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f743(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt743::filter(con::<[bool; 2]>(c, 0)) }
fn p744(l: RawLog, t: &[Ty]) -> Out { c3::events::evt744::parse_log(l).map(|l| { let c3::logs::Evt744 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2)] }).map_err(|e| e.to_string()) }
fn f744(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt744::filter(con::<[bool; 2]>(c, 0), con::<[bool; 2]>(c, 1)) }
fn p745(l: RawLog, t: &[Ty]) -> Out { c3::events::evt745::parse_log(l).map(|l| { let c3::logs::Evt745 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f745(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt745::filter(con::<[bool; 2]>(c, 0)) }
fn p746(l: RawLog, t: &[Ty]) -> Out { c3::events::evt746::parse_log(l).map(|l| { let c3::logs::Evt746 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f746(c: &[Tp<Val>]) -> TopicFilter { c3::events::evt746::filter(con::<[bool; 2]>(c, 0)) }
fn p747(l: RawLog, t: &[Ty]) -> Out { c3::events::evt747::parse_log(l).map(|l| { let c3::logs::Evt747 { p0: f0, p1: f1, p2: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f747(_: &[Tp<Val>]) -> TopicFilter { c3::events::evt747::filter() }
fn p748(l: RawLog, t: &[Ty]) -> Out { c4::events::evt748::parse_log(l).map(|l| { let c4::logs::Evt748 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f748(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt748::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p749(l: RawLog, t: &[Ty]) -> Out { c4::events::evt749::parse_log(l).map(|l| { let c4::logs::Evt749 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f749(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt749::filter(con::<Address>(c, 0), con::<Address>(c, 1), con::<Hash>(c, 2)) }
fn p750(l: RawLog, t: &[Ty]) -> Out { c4::events::evt750::parse_log(l).map(|l| { let c4::logs::Evt750 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f750(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt750::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Vec<u8>>(c, 2)) }
fn p751(l: RawLog, t: &[Ty]) -> Out { c4::events::evt751::parse_log(l).map(|l| { let c4::logs::Evt751 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f751(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt751::filter(con::<Address>(c, 0), con::<Address>(c, 1), con::<Hash>(c, 2)) }
fn p752(l: RawLog, t: &[Ty]) -> Out { c4::events::evt752::parse_log(l).map(|l| { let c4::logs::Evt752 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f752(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt752::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p753(l: RawLog, t: &[Ty]) -> Out { c4::events::evt753::parse_log(l).map(|l| { let c4::logs::Evt753 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f753(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt753::filter(con::<Address>(c, 0), con::<Address>(c, 1), con::<bool>(c, 2)) }
fn p754(l: RawLog, t: &[Ty]) -> Out { c4::events::evt754::parse_log(l).map(|l| { let c4::logs::Evt754 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f754(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt754::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2)) }
fn p755(l: RawLog, t: &[Ty]) -> Out { c4::events::evt755::parse_log(l).map(|l| { let c4::logs::Evt755 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f755(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt755::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2)) }
fn p756(l: RawLog, t: &[Ty]) -> Out { c4::events::evt756::parse_log(l).map(|l| { let c4::logs::Evt756 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f756(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt756::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p757(l: RawLog, t: &[Ty]) -> Out { c4::events::evt757::parse_log(l).map(|l| { let c4::logs::Evt757 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f757(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt757::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<bool>(c, 2)) }
fn p758(l: RawLog, t: &[Ty]) -> Out { c4::events::evt758::parse_log(l).map(|l| { let c4::logs::Evt758 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f758(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt758::filter(con::<Uint>(c, 0), con::<Vec<u8>>(c, 1), con::<Uint>(c, 2)) }
fn p759(l: RawLog, t: &[Ty]) -> Out { c4::events::evt759::parse_log(l).map(|l| { let c4::logs::Evt759 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f759(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt759::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<bool>(c, 2)) }
fn p760(l: RawLog, t: &[Ty]) -> Out { c4::events::evt760::parse_log(l).map(|l| { let c4::logs::Evt760 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f760(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt760::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2)) }
fn p761(l: RawLog, t: &[Ty]) -> Out { c4::events::evt761::parse_log(l).map(|l| { let c4::logs::Evt761 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f761(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt761::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2)) }
fn p762(l: RawLog, t: &[Ty]) -> Out { c4::events::evt762::parse_log(l).map(|l| { let c4::logs::Evt762 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f762(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt762::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p763(l: RawLog, t: &[Ty]) -> Out { c4::events::evt763::parse_log(l).map(|l| { let c4::logs::Evt763 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f763(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt763::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<bool>(c, 2)) }
fn p764(l: RawLog, t: &[Ty]) -> Out { c4::events::evt764::parse_log(l).map(|l| { let c4::logs::Evt764 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f764(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt764::filter(con::<String>(c, 0), con::<Vec<u8>>(c, 1), con::<Uint>(c, 2)) }
fn p765(l: RawLog, t: &[Ty]) -> Out { c4::events::evt765::parse_log(l).map(|l| { let c4::logs::Evt765 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f765(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt765::filter(con::<Address>(c, 0), con::<Hash>(c, 1), con::<bool>(c, 2)) }
fn p766(l: RawLog, t: &[Ty]) -> Out { c4::events::evt766::parse_log(l).map(|l| { let c4::logs::Evt766 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f766(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt766::filter(con::<Uint>(c, 0), con::<Vec<u8>>(c, 1), con::<Uint>(c, 2)) }
fn p767(l: RawLog, t: &[Ty]) -> Out { c4::events::evt767::parse_log(l).map(|l| { let c4::logs::Evt767 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f767(c: &[Tp<Val>]) -> TopicFilter { c4::events::evt767::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<bool>(c, 2)) }
fn p768(l: RawLog, t: &[Ty]) -> Out { c5::events::evt768::parse_log(l).map(|l| { let c5::logs::Evt768 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f768(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt768::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p769(l: RawLog, t: &[Ty]) -> Out { c5::events::evt769::parse_log(l).map(|l| { let c5::logs::Evt769 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f769(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt769::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p770(l: RawLog, t: &[Ty]) -> Out { c5::events::evt770::parse_log(l).map(|l| { let c5::logs::Evt770 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f770(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt770::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p771(l: RawLog, t: &[Ty]) -> Out { c5::events::evt771::parse_log(l).map(|l| { let c5::logs::Evt771 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f771(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt771::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p772(l: RawLog, t: &[Ty]) -> Out { c5::events::evt772::parse_log(l).map(|l| { let c5::logs::Evt772 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f772(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt772::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p773(l: RawLog, t: &[Ty]) -> Out { c5::events::evt773::parse_log(l).map(|l| { let c5::logs::Evt773 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f773(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt773::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p774(l: RawLog, t: &[Ty]) -> Out { c5::events::evt774::parse_log(l).map(|l| { let c5::logs::Evt774 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f774(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt774::filter(con::<Uint>(c, 0)) }
fn p775(l: RawLog, t: &[Ty]) -> Out { c5::events::evt775::parse_log(l).map(|l| { let c5::logs::Evt775 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f775(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt775::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p776(l: RawLog, t: &[Ty]) -> Out { c5::events::evt776::parse_log(l).map(|l| { let c5::logs::Evt776 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f776(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt776::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p777(l: RawLog, t: &[Ty]) -> Out { c5::events::evt777::parse_log(l).map(|l| { let c5::logs::Evt777 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f777(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt777::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p778(l: RawLog, t: &[Ty]) -> Out { c5::events::evt778::parse_log(l).map(|l| { let c5::logs::Evt778 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f778(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt778::filter(con::<Uint>(c, 0)) }
fn p779(l: RawLog, t: &[Ty]) -> Out { c5::events::evt779::parse_log(l).map(|l| { let c5::logs::Evt779 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f779(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt779::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p780(l: RawLog, t: &[Ty]) -> Out { c5::events::evt780::parse_log(l).map(|l| { let c5::logs::Evt780 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f780(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt780::filter(con::<Uint>(c, 0)) }
fn p781(l: RawLog, t: &[Ty]) -> Out { c5::events::evt781::parse_log(l).map(|l| { let c5::logs::Evt781 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f781(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt781::filter(con::<Uint>(c, 0)) }
fn p782(l: RawLog, t: &[Ty]) -> Out { c5::events::evt782::parse_log(l).map(|l| { let c5::logs::Evt782 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f782(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt782::filter() }
fn p783(l: RawLog, t: &[Ty]) -> Out { c5::events::evt783::parse_log(l).map(|l| { let c5::logs::Evt783 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f783(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt783::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p784(l: RawLog, t: &[Ty]) -> Out { c5::events::evt784::parse_log(l).map(|l| { let c5::logs::Evt784 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f784(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt784::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p785(l: RawLog, t: &[Ty]) -> Out { c5::events::evt785::parse_log(l).map(|l| { let c5::logs::Evt785 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f785(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt785::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p786(l: RawLog, t: &[Ty]) -> Out { c5::events::evt786::parse_log(l).map(|l| { let c5::logs::Evt786 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f786(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt786::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p787(l: RawLog, t: &[Ty]) -> Out { c5::events::evt787::parse_log(l).map(|l| { let c5::logs::Evt787 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f787(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt787::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p788(l: RawLog, t: &[Ty]) -> Out { c5::events::evt788::parse_log(l).map(|l| { let c5::logs::Evt788 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f788(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt788::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p789(l: RawLog, t: &[Ty]) -> Out { c5::events::evt789::parse_log(l).map(|l| { let c5::logs::Evt789 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f789(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt789::filter(con::<Uint>(c, 0)) }
fn p790(l: RawLog, t: &[Ty]) -> Out { c5::events::evt790::parse_log(l).map(|l| { let c5::logs::Evt790 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f790(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt790::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p791(l: RawLog, t: &[Ty]) -> Out { c5::events::evt791::parse_log(l).map(|l| { let c5::logs::Evt791 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f791(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt791::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p792(l: RawLog, t: &[Ty]) -> Out { c5::events::evt792::parse_log(l).map(|l| { let c5::logs::Evt792 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f792(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt792::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p793(l: RawLog, t: &[Ty]) -> Out { c5::events::evt793::parse_log(l).map(|l| { let c5::logs::Evt793 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f793(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt793::filter(con::<Uint>(c, 0)) }
fn p794(l: RawLog, t: &[Ty]) -> Out { c5::events::evt794::parse_log(l).map(|l| { let c5::logs::Evt794 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f794(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt794::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p795(l: RawLog, t: &[Ty]) -> Out { c5::events::evt795::parse_log(l).map(|l| { let c5::logs::Evt795 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f795(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt795::filter(con::<Uint>(c, 0)) }
fn p796(l: RawLog, t: &[Ty]) -> Out { c5::events::evt796::parse_log(l).map(|l| { let c5::logs::Evt796 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f796(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt796::filter(con::<String>(c, 0)) }
fn p797(l: RawLog, t: &[Ty]) -> Out { c5::events::evt797::parse_log(l).map(|l| { let c5::logs::Evt797 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f797(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt797::filter() }
fn p798(l: RawLog, t: &[Ty]) -> Out { c5::events::evt798::parse_log(l).map(|l| { let c5::logs::Evt798 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f798(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt798::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p799(l: RawLog, t: &[Ty]) -> Out { c5::events::evt799::parse_log(l).map(|l| { let c5::logs::Evt799 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f799(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt799::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p800(l: RawLog, t: &[Ty]) -> Out { c5::events::evt800::parse_log(l).map(|l| { let c5::logs::Evt800 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f800(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt800::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p801(l: RawLog, t: &[Ty]) -> Out { c5::events::evt801::parse_log(l).map(|l| { let c5::logs::Evt801 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f801(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt801::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p802(l: RawLog, t: &[Ty]) -> Out { c5::events::evt802::parse_log(l).map(|l| { let c5::logs::Evt802 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f802(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt802::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p803(l: RawLog, t: &[Ty]) -> Out { c5::events::evt803::parse_log(l).map(|l| { let c5::logs::Evt803 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f803(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt803::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p804(l: RawLog, t: &[Ty]) -> Out { c5::events::evt804::parse_log(l).map(|l| { let c5::logs::Evt804 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f804(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt804::filter(con::<Uint>(c, 0)) }
fn p805(l: RawLog, t: &[Ty]) -> Out { c5::events::evt805::parse_log(l).map(|l| { let c5::logs::Evt805 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f805(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt805::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p806(l: RawLog, t: &[Ty]) -> Out { c5::events::evt806::parse_log(l).map(|l| { let c5::logs::Evt806 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f806(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt806::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p807(l: RawLog, t: &[Ty]) -> Out { c5::events::evt807::parse_log(l).map(|l| { let c5::logs::Evt807 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f807(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt807::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p808(l: RawLog, t: &[Ty]) -> Out { c5::events::evt808::parse_log(l).map(|l| { let c5::logs::Evt808 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f808(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt808::filter(con::<Uint>(c, 0)) }
fn p809(l: RawLog, t: &[Ty]) -> Out { c5::events::evt809::parse_log(l).map(|l| { let c5::logs::Evt809 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f809(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt809::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p810(l: RawLog, t: &[Ty]) -> Out { c5::events::evt810::parse_log(l).map(|l| { let c5::logs::Evt810 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f810(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt810::filter(con::<String>(c, 0)) }
fn p811(l: RawLog, t: &[Ty]) -> Out { c5::events::evt811::parse_log(l).map(|l| { let c5::logs::Evt811 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f811(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt811::filter(con::<Uint>(c, 0)) }
fn p812(l: RawLog, t: &[Ty]) -> Out { c5::events::evt812::parse_log(l).map(|l| { let c5::logs::Evt812 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f812(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt812::filter() }
fn p813(l: RawLog, t: &[Ty]) -> Out { c5::events::evt813::parse_log(l).map(|l| { let c5::logs::Evt813 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f813(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt813::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p814(l: RawLog, t: &[Ty]) -> Out { c5::events::evt814::parse_log(l).map(|l| { let c5::logs::Evt814 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f814(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt814::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p815(l: RawLog, t: &[Ty]) -> Out { c5::events::evt815::parse_log(l).map(|l| { let c5::logs::Evt815 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f815(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt815::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p816(l: RawLog, t: &[Ty]) -> Out { c5::events::evt816::parse_log(l).map(|l| { let c5::logs::Evt816 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f816(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt816::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p817(l: RawLog, t: &[Ty]) -> Out { c5::events::evt817::parse_log(l).map(|l| { let c5::logs::Evt817 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f817(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt817::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p818(l: RawLog, t: &[Ty]) -> Out { c5::events::evt818::parse_log(l).map(|l| { let c5::logs::Evt818 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f818(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt818::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p819(l: RawLog, t: &[Ty]) -> Out { c5::events::evt819::parse_log(l).map(|l| { let c5::logs::Evt819 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f819(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt819::filter(con::<Uint>(c, 0)) }
fn p820(l: RawLog, t: &[Ty]) -> Out { c5::events::evt820::parse_log(l).map(|l| { let c5::logs::Evt820 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f820(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt820::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p821(l: RawLog, t: &[Ty]) -> Out { c5::events::evt821::parse_log(l).map(|l| { let c5::logs::Evt821 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f821(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt821::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p822(l: RawLog, t: &[Ty]) -> Out { c5::events::evt822::parse_log(l).map(|l| { let c5::logs::Evt822 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f822(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt822::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p823(l: RawLog, t: &[Ty]) -> Out { c5::events::evt823::parse_log(l).map(|l| { let c5::logs::Evt823 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f823(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt823::filter(con::<Uint>(c, 0)) }
fn p824(l: RawLog, t: &[Ty]) -> Out { c5::events::evt824::parse_log(l).map(|l| { let c5::logs::Evt824 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f824(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt824::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p825(l: RawLog, t: &[Ty]) -> Out { c5::events::evt825::parse_log(l).map(|l| { let c5::logs::Evt825 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f825(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt825::filter(con::<String>(c, 0)) }
fn p826(l: RawLog, t: &[Ty]) -> Out { c5::events::evt826::parse_log(l).map(|l| { let c5::logs::Evt826 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f826(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt826::filter(con::<String>(c, 0)) }
fn p827(l: RawLog, t: &[Ty]) -> Out { c5::events::evt827::parse_log(l).map(|l| { let c5::logs::Evt827 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f827(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt827::filter() }
fn p828(l: RawLog, t: &[Ty]) -> Out { c5::events::evt828::parse_log(l).map(|l| { let c5::logs::Evt828 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f828(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt828::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p829(l: RawLog, t: &[Ty]) -> Out { c5::events::evt829::parse_log(l).map(|l| { let c5::logs::Evt829 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f829(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt829::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p830(l: RawLog, t: &[Ty]) -> Out { c5::events::evt830::parse_log(l).map(|l| { let c5::logs::Evt830 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f830(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt830::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p831(l: RawLog, t: &[Ty]) -> Out { c5::events::evt831::parse_log(l).map(|l| { let c5::logs::Evt831 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f831(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt831::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p832(l: RawLog, t: &[Ty]) -> Out { c5::events::evt832::parse_log(l).map(|l| { let c5::logs::Evt832 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f832(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt832::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p833(l: RawLog, t: &[Ty]) -> Out { c5::events::evt833::parse_log(l).map(|l| { let c5::logs::Evt833 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f833(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt833::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p834(l: RawLog, t: &[Ty]) -> Out { c5::events::evt834::parse_log(l).map(|l| { let c5::logs::Evt834 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f834(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt834::filter(con::<Uint>(c, 0)) }
fn p835(l: RawLog, t: &[Ty]) -> Out { c5::events::evt835::parse_log(l).map(|l| { let c5::logs::Evt835 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f835(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt835::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p836(l: RawLog, t: &[Ty]) -> Out { c5::events::evt836::parse_log(l).map(|l| { let c5::logs::Evt836 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f836(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt836::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p837(l: RawLog, t: &[Ty]) -> Out { c5::events::evt837::parse_log(l).map(|l| { let c5::logs::Evt837 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f837(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt837::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p838(l: RawLog, t: &[Ty]) -> Out { c5::events::evt838::parse_log(l).map(|l| { let c5::logs::Evt838 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f838(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt838::filter(con::<String>(c, 0)) }
fn p839(l: RawLog, t: &[Ty]) -> Out { c5::events::evt839::parse_log(l).map(|l| { let c5::logs::Evt839 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f839(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt839::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p840(l: RawLog, t: &[Ty]) -> Out { c5::events::evt840::parse_log(l).map(|l| { let c5::logs::Evt840 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f840(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt840::filter(con::<Uint>(c, 0)) }
fn p841(l: RawLog, t: &[Ty]) -> Out { c5::events::evt841::parse_log(l).map(|l| { let c5::logs::Evt841 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f841(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt841::filter(con::<Uint>(c, 0)) }
fn p842(l: RawLog, t: &[Ty]) -> Out { c5::events::evt842::parse_log(l).map(|l| { let c5::logs::Evt842 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f842(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt842::filter() }
fn p843(l: RawLog, t: &[Ty]) -> Out { c5::events::evt843::parse_log(l).map(|l| { let c5::logs::Evt843 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f843(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt843::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p844(l: RawLog, t: &[Ty]) -> Out { c5::events::evt844::parse_log(l).map(|l| { let c5::logs::Evt844 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f844(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt844::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p845(l: RawLog, t: &[Ty]) -> Out { c5::events::evt845::parse_log(l).map(|l| { let c5::logs::Evt845 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f845(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt845::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p846(l: RawLog, t: &[Ty]) -> Out { c5::events::evt846::parse_log(l).map(|l| { let c5::logs::Evt846 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f846(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt846::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p847(l: RawLog, t: &[Ty]) -> Out { c5::events::evt847::parse_log(l).map(|l| { let c5::logs::Evt847 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f847(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt847::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p848(l: RawLog, t: &[Ty]) -> Out { c5::events::evt848::parse_log(l).map(|l| { let c5::logs::Evt848 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f848(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt848::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p849(l: RawLog, t: &[Ty]) -> Out { c5::events::evt849::parse_log(l).map(|l| { let c5::logs::Evt849 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f849(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt849::filter(con::<Uint>(c, 0)) }
fn p850(l: RawLog, t: &[Ty]) -> Out { c5::events::evt850::parse_log(l).map(|l| { let c5::logs::Evt850 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f850(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt850::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p851(l: RawLog, t: &[Ty]) -> Out { c5::events::evt851::parse_log(l).map(|l| { let c5::logs::Evt851 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f851(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt851::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p852(l: RawLog, t: &[Ty]) -> Out { c5::events::evt852::parse_log(l).map(|l| { let c5::logs::Evt852 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f852(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt852::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p853(l: RawLog, t: &[Ty]) -> Out { c5::events::evt853::parse_log(l).map(|l| { let c5::logs::Evt853 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f853(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt853::filter(con::<String>(c, 0)) }
fn p854(l: RawLog, t: &[Ty]) -> Out { c5::events::evt854::parse_log(l).map(|l| { let c5::logs::Evt854 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f854(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt854::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p855(l: RawLog, t: &[Ty]) -> Out { c5::events::evt855::parse_log(l).map(|l| { let c5::logs::Evt855 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f855(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt855::filter(con::<Uint>(c, 0)) }
fn p856(l: RawLog, t: &[Ty]) -> Out { c5::events::evt856::parse_log(l).map(|l| { let c5::logs::Evt856 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f856(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt856::filter(con::<String>(c, 0)) }
fn p857(l: RawLog, t: &[Ty]) -> Out { c5::events::evt857::parse_log(l).map(|l| { let c5::logs::Evt857 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f857(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt857::filter() }
fn p858(l: RawLog, t: &[Ty]) -> Out { c5::events::evt858::parse_log(l).map(|l| { let c5::logs::Evt858 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f858(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt858::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p859(l: RawLog, t: &[Ty]) -> Out { c5::events::evt859::parse_log(l).map(|l| { let c5::logs::Evt859 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f859(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt859::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p860(l: RawLog, t: &[Ty]) -> Out { c5::events::evt860::parse_log(l).map(|l| { let c5::logs::Evt860 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f860(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt860::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p861(l: RawLog, t: &[Ty]) -> Out { c5::events::evt861::parse_log(l).map(|l| { let c5::logs::Evt861 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f861(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt861::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p862(l: RawLog, t: &[Ty]) -> Out { c5::events::evt862::parse_log(l).map(|l| { let c5::logs::Evt862 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f862(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt862::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p863(l: RawLog, t: &[Ty]) -> Out { c5::events::evt863::parse_log(l).map(|l| { let c5::logs::Evt863 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f863(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt863::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p864(l: RawLog, t: &[Ty]) -> Out { c5::events::evt864::parse_log(l).map(|l| { let c5::logs::Evt864 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f864(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt864::filter(con::<Uint>(c, 0)) }
fn p865(l: RawLog, t: &[Ty]) -> Out { c5::events::evt865::parse_log(l).map(|l| { let c5::logs::Evt865 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f865(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt865::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p866(l: RawLog, t: &[Ty]) -> Out { c5::events::evt866::parse_log(l).map(|l| { let c5::logs::Evt866 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f866(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt866::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p867(l: RawLog, t: &[Ty]) -> Out { c5::events::evt867::parse_log(l).map(|l| { let c5::logs::Evt867 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f867(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt867::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p868(l: RawLog, t: &[Ty]) -> Out { c5::events::evt868::parse_log(l).map(|l| { let c5::logs::Evt868 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f868(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt868::filter(con::<String>(c, 0)) }
fn p869(l: RawLog, t: &[Ty]) -> Out { c5::events::evt869::parse_log(l).map(|l| { let c5::logs::Evt869 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f869(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt869::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p870(l: RawLog, t: &[Ty]) -> Out { c5::events::evt870::parse_log(l).map(|l| { let c5::logs::Evt870 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f870(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt870::filter(con::<String>(c, 0)) }
fn p871(l: RawLog, t: &[Ty]) -> Out { c5::events::evt871::parse_log(l).map(|l| { let c5::logs::Evt871 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f871(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt871::filter(con::<Uint>(c, 0)) }
fn p872(l: RawLog, t: &[Ty]) -> Out { c5::events::evt872::parse_log(l).map(|l| { let c5::logs::Evt872 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f872(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt872::filter() }
fn p873(l: RawLog, t: &[Ty]) -> Out { c5::events::evt873::parse_log(l).map(|l| { let c5::logs::Evt873 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f873(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt873::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p874(l: RawLog, t: &[Ty]) -> Out { c5::events::evt874::parse_log(l).map(|l| { let c5::logs::Evt874 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f874(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt874::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p875(l: RawLog, t: &[Ty]) -> Out { c5::events::evt875::parse_log(l).map(|l| { let c5::logs::Evt875 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f875(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt875::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p876(l: RawLog, t: &[Ty]) -> Out { c5::events::evt876::parse_log(l).map(|l| { let c5::logs::Evt876 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f876(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt876::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p877(l: RawLog, t: &[Ty]) -> Out { c5::events::evt877::parse_log(l).map(|l| { let c5::logs::Evt877 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f877(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt877::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p878(l: RawLog, t: &[Ty]) -> Out { c5::events::evt878::parse_log(l).map(|l| { let c5::logs::Evt878 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f878(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt878::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p879(l: RawLog, t: &[Ty]) -> Out { c5::events::evt879::parse_log(l).map(|l| { let c5::logs::Evt879 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f879(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt879::filter(con::<Uint>(c, 0)) }
fn p880(l: RawLog, t: &[Ty]) -> Out { c5::events::evt880::parse_log(l).map(|l| { let c5::logs::Evt880 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f880(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt880::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p881(l: RawLog, t: &[Ty]) -> Out { c5::events::evt881::parse_log(l).map(|l| { let c5::logs::Evt881 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f881(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt881::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p882(l: RawLog, t: &[Ty]) -> Out { c5::events::evt882::parse_log(l).map(|l| { let c5::logs::Evt882 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f882(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt882::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p883(l: RawLog, t: &[Ty]) -> Out { c5::events::evt883::parse_log(l).map(|l| { let c5::logs::Evt883 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f883(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt883::filter(con::<String>(c, 0)) }
fn p884(l: RawLog, t: &[Ty]) -> Out { c5::events::evt884::parse_log(l).map(|l| { let c5::logs::Evt884 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f884(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt884::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p885(l: RawLog, t: &[Ty]) -> Out { c5::events::evt885::parse_log(l).map(|l| { let c5::logs::Evt885 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f885(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt885::filter(con::<String>(c, 0)) }
fn p886(l: RawLog, t: &[Ty]) -> Out { c5::events::evt886::parse_log(l).map(|l| { let c5::logs::Evt886 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f886(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt886::filter(con::<String>(c, 0)) }
fn p887(l: RawLog, t: &[Ty]) -> Out { c5::events::evt887::parse_log(l).map(|l| { let c5::logs::Evt887 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f887(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt887::filter() }
fn p888(l: RawLog, t: &[Ty]) -> Out { c5::events::evt888::parse_log(l).map(|l| { let c5::logs::Evt888 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f888(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt888::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p889(l: RawLog, t: &[Ty]) -> Out { c5::events::evt889::parse_log(l).map(|l| { let c5::logs::Evt889 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f889(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt889::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p890(l: RawLog, t: &[Ty]) -> Out { c5::events::evt890::parse_log(l).map(|l| { let c5::logs::Evt890 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f890(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt890::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p891(l: RawLog, t: &[Ty]) -> Out { c5::events::evt891::parse_log(l).map(|l| { let c5::logs::Evt891 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f891(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt891::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p892(l: RawLog, t: &[Ty]) -> Out { c5::events::evt892::parse_log(l).map(|l| { let c5::logs::Evt892 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f892(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt892::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p893(l: RawLog, t: &[Ty]) -> Out { c5::events::evt893::parse_log(l).map(|l| { let c5::logs::Evt893 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f893(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt893::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p894(l: RawLog, t: &[Ty]) -> Out { c5::events::evt894::parse_log(l).map(|l| { let c5::logs::Evt894 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f894(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt894::filter(con::<String>(c, 0)) }
fn p895(l: RawLog, t: &[Ty]) -> Out { c5::events::evt895::parse_log(l).map(|l| { let c5::logs::Evt895 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f895(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt895::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p896(l: RawLog, t: &[Ty]) -> Out { c5::events::evt896::parse_log(l).map(|l| { let c5::logs::Evt896 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f896(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt896::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p897(l: RawLog, t: &[Ty]) -> Out { c5::events::evt897::parse_log(l).map(|l| { let c5::logs::Evt897 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f897(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt897::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p898(l: RawLog, t: &[Ty]) -> Out { c5::events::evt898::parse_log(l).map(|l| { let c5::logs::Evt898 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f898(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt898::filter(con::<Uint>(c, 0)) }
fn p899(l: RawLog, t: &[Ty]) -> Out { c5::events::evt899::parse_log(l).map(|l| { let c5::logs::Evt899 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f899(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt899::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p900(l: RawLog, t: &[Ty]) -> Out { c5::events::evt900::parse_log(l).map(|l| { let c5::logs::Evt900 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f900(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt900::filter(con::<Uint>(c, 0)) }
fn p901(l: RawLog, t: &[Ty]) -> Out { c5::events::evt901::parse_log(l).map(|l| { let c5::logs::Evt901 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f901(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt901::filter(con::<Uint>(c, 0)) }
fn p902(l: RawLog, t: &[Ty]) -> Out { c5::events::evt902::parse_log(l).map(|l| { let c5::logs::Evt902 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f902(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt902::filter() }
fn p903(l: RawLog, t: &[Ty]) -> Out { c5::events::evt903::parse_log(l).map(|l| { let c5::logs::Evt903 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f903(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt903::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p904(l: RawLog, t: &[Ty]) -> Out { c5::events::evt904::parse_log(l).map(|l| { let c5::logs::Evt904 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f904(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt904::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p905(l: RawLog, t: &[Ty]) -> Out { c5::events::evt905::parse_log(l).map(|l| { let c5::logs::Evt905 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f905(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt905::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p906(l: RawLog, t: &[Ty]) -> Out { c5::events::evt906::parse_log(l).map(|l| { let c5::logs::Evt906 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f906(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt906::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p907(l: RawLog, t: &[Ty]) -> Out { c5::events::evt907::parse_log(l).map(|l| { let c5::logs::Evt907 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f907(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt907::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p908(l: RawLog, t: &[Ty]) -> Out { c5::events::evt908::parse_log(l).map(|l| { let c5::logs::Evt908 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f908(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt908::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p909(l: RawLog, t: &[Ty]) -> Out { c5::events::evt909::parse_log(l).map(|l| { let c5::logs::Evt909 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f909(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt909::filter(con::<String>(c, 0)) }
fn p910(l: RawLog, t: &[Ty]) -> Out { c5::events::evt910::parse_log(l).map(|l| { let c5::logs::Evt910 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f910(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt910::filter(con::<Uint>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p911(l: RawLog, t: &[Ty]) -> Out { c5::events::evt911::parse_log(l).map(|l| { let c5::logs::Evt911 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f911(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt911::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p912(l: RawLog, t: &[Ty]) -> Out { c5::events::evt912::parse_log(l).map(|l| { let c5::logs::Evt912 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f912(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt912::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p913(l: RawLog, t: &[Ty]) -> Out { c5::events::evt913::parse_log(l).map(|l| { let c5::logs::Evt913 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f913(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt913::filter(con::<Uint>(c, 0)) }
fn p914(l: RawLog, t: &[Ty]) -> Out { c5::events::evt914::parse_log(l).map(|l| { let c5::logs::Evt914 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f914(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt914::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p915(l: RawLog, t: &[Ty]) -> Out { c5::events::evt915::parse_log(l).map(|l| { let c5::logs::Evt915 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f915(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt915::filter(con::<Uint>(c, 0)) }
fn p916(l: RawLog, t: &[Ty]) -> Out { c5::events::evt916::parse_log(l).map(|l| { let c5::logs::Evt916 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f916(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt916::filter(con::<String>(c, 0)) }
fn p917(l: RawLog, t: &[Ty]) -> Out { c5::events::evt917::parse_log(l).map(|l| { let c5::logs::Evt917 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f917(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt917::filter() }
fn p918(l: RawLog, t: &[Ty]) -> Out { c5::events::evt918::parse_log(l).map(|l| { let c5::logs::Evt918 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f918(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt918::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p919(l: RawLog, t: &[Ty]) -> Out { c5::events::evt919::parse_log(l).map(|l| { let c5::logs::Evt919 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f919(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt919::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p920(l: RawLog, t: &[Ty]) -> Out { c5::events::evt920::parse_log(l).map(|l| { let c5::logs::Evt920 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f920(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt920::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p921(l: RawLog, t: &[Ty]) -> Out { c5::events::evt921::parse_log(l).map(|l| { let c5::logs::Evt921 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f921(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt921::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p922(l: RawLog, t: &[Ty]) -> Out { c5::events::evt922::parse_log(l).map(|l| { let c5::logs::Evt922 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f922(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt922::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p923(l: RawLog, t: &[Ty]) -> Out { c5::events::evt923::parse_log(l).map(|l| { let c5::logs::Evt923 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f923(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt923::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p924(l: RawLog, t: &[Ty]) -> Out { c5::events::evt924::parse_log(l).map(|l| { let c5::logs::Evt924 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f924(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt924::filter(con::<String>(c, 0)) }
fn p925(l: RawLog, t: &[Ty]) -> Out { c5::events::evt925::parse_log(l).map(|l| { let c5::logs::Evt925 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f925(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt925::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p926(l: RawLog, t: &[Ty]) -> Out { c5::events::evt926::parse_log(l).map(|l| { let c5::logs::Evt926 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f926(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt926::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p927(l: RawLog, t: &[Ty]) -> Out { c5::events::evt927::parse_log(l).map(|l| { let c5::logs::Evt927 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f927(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt927::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p928(l: RawLog, t: &[Ty]) -> Out { c5::events::evt928::parse_log(l).map(|l| { let c5::logs::Evt928 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f928(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt928::filter(con::<Uint>(c, 0)) }
fn p929(l: RawLog, t: &[Ty]) -> Out { c5::events::evt929::parse_log(l).map(|l| { let c5::logs::Evt929 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f929(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt929::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p930(l: RawLog, t: &[Ty]) -> Out { c5::events::evt930::parse_log(l).map(|l| { let c5::logs::Evt930 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f930(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt930::filter(con::<String>(c, 0)) }
fn p931(l: RawLog, t: &[Ty]) -> Out { c5::events::evt931::parse_log(l).map(|l| { let c5::logs::Evt931 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f931(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt931::filter(con::<Uint>(c, 0)) }
fn p932(l: RawLog, t: &[Ty]) -> Out { c5::events::evt932::parse_log(l).map(|l| { let c5::logs::Evt932 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f932(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt932::filter() }
fn p933(l: RawLog, t: &[Ty]) -> Out { c5::events::evt933::parse_log(l).map(|l| { let c5::logs::Evt933 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f933(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt933::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p934(l: RawLog, t: &[Ty]) -> Out { c5::events::evt934::parse_log(l).map(|l| { let c5::logs::Evt934 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f934(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt934::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p935(l: RawLog, t: &[Ty]) -> Out { c5::events::evt935::parse_log(l).map(|l| { let c5::logs::Evt935 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f935(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt935::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p936(l: RawLog, t: &[Ty]) -> Out { c5::events::evt936::parse_log(l).map(|l| { let c5::logs::Evt936 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f936(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt936::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p937(l: RawLog, t: &[Ty]) -> Out { c5::events::evt937::parse_log(l).map(|l| { let c5::logs::Evt937 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f937(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt937::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p938(l: RawLog, t: &[Ty]) -> Out { c5::events::evt938::parse_log(l).map(|l| { let c5::logs::Evt938 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f938(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt938::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p939(l: RawLog, t: &[Ty]) -> Out { c5::events::evt939::parse_log(l).map(|l| { let c5::logs::Evt939 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f939(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt939::filter(con::<String>(c, 0)) }
fn p940(l: RawLog, t: &[Ty]) -> Out { c5::events::evt940::parse_log(l).map(|l| { let c5::logs::Evt940 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f940(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt940::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p941(l: RawLog, t: &[Ty]) -> Out { c5::events::evt941::parse_log(l).map(|l| { let c5::logs::Evt941 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f941(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt941::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p942(l: RawLog, t: &[Ty]) -> Out { c5::events::evt942::parse_log(l).map(|l| { let c5::logs::Evt942 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f942(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt942::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p943(l: RawLog, t: &[Ty]) -> Out { c5::events::evt943::parse_log(l).map(|l| { let c5::logs::Evt943 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f943(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt943::filter(con::<Uint>(c, 0)) }
fn p944(l: RawLog, t: &[Ty]) -> Out { c5::events::evt944::parse_log(l).map(|l| { let c5::logs::Evt944 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f944(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt944::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p945(l: RawLog, t: &[Ty]) -> Out { c5::events::evt945::parse_log(l).map(|l| { let c5::logs::Evt945 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f945(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt945::filter(con::<String>(c, 0)) }
fn p946(l: RawLog, t: &[Ty]) -> Out { c5::events::evt946::parse_log(l).map(|l| { let c5::logs::Evt946 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f946(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt946::filter(con::<String>(c, 0)) }
fn p947(l: RawLog, t: &[Ty]) -> Out { c5::events::evt947::parse_log(l).map(|l| { let c5::logs::Evt947 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f947(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt947::filter() }
fn p948(l: RawLog, t: &[Ty]) -> Out { c5::events::evt948::parse_log(l).map(|l| { let c5::logs::Evt948 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f948(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt948::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p949(l: RawLog, t: &[Ty]) -> Out { c5::events::evt949::parse_log(l).map(|l| { let c5::logs::Evt949 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f949(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt949::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p950(l: RawLog, t: &[Ty]) -> Out { c5::events::evt950::parse_log(l).map(|l| { let c5::logs::Evt950 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f950(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt950::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p951(l: RawLog, t: &[Ty]) -> Out { c5::events::evt951::parse_log(l).map(|l| { let c5::logs::Evt951 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f951(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt951::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p952(l: RawLog, t: &[Ty]) -> Out { c5::events::evt952::parse_log(l).map(|l| { let c5::logs::Evt952 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f952(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt952::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p953(l: RawLog, t: &[Ty]) -> Out { c5::events::evt953::parse_log(l).map(|l| { let c5::logs::Evt953 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f953(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt953::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p954(l: RawLog, t: &[Ty]) -> Out { c5::events::evt954::parse_log(l).map(|l| { let c5::logs::Evt954 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f954(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt954::filter(con::<String>(c, 0)) }
fn p955(l: RawLog, t: &[Ty]) -> Out { c5::events::evt955::parse_log(l).map(|l| { let c5::logs::Evt955 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f955(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt955::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<Uint>(c, 2)) }
fn p956(l: RawLog, t: &[Ty]) -> Out { c5::events::evt956::parse_log(l).map(|l| { let c5::logs::Evt956 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f956(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt956::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p957(l: RawLog, t: &[Ty]) -> Out { c5::events::evt957::parse_log(l).map(|l| { let c5::logs::Evt957 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f957(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt957::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p958(l: RawLog, t: &[Ty]) -> Out { c5::events::evt958::parse_log(l).map(|l| { let c5::logs::Evt958 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f958(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt958::filter(con::<String>(c, 0)) }
fn p959(l: RawLog, t: &[Ty]) -> Out { c5::events::evt959::parse_log(l).map(|l| { let c5::logs::Evt959 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f959(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt959::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p960(l: RawLog, t: &[Ty]) -> Out { c5::events::evt960::parse_log(l).map(|l| { let c5::logs::Evt960 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f960(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt960::filter(con::<Uint>(c, 0)) }
fn p961(l: RawLog, t: &[Ty]) -> Out { c5::events::evt961::parse_log(l).map(|l| { let c5::logs::Evt961 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f961(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt961::filter(con::<Uint>(c, 0)) }
fn p962(l: RawLog, t: &[Ty]) -> Out { c5::events::evt962::parse_log(l).map(|l| { let c5::logs::Evt962 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f962(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt962::filter() }
fn p963(l: RawLog, t: &[Ty]) -> Out { c5::events::evt963::parse_log(l).map(|l| { let c5::logs::Evt963 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f963(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt963::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p964(l: RawLog, t: &[Ty]) -> Out { c5::events::evt964::parse_log(l).map(|l| { let c5::logs::Evt964 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f964(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt964::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p965(l: RawLog, t: &[Ty]) -> Out { c5::events::evt965::parse_log(l).map(|l| { let c5::logs::Evt965 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f965(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt965::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p966(l: RawLog, t: &[Ty]) -> Out { c5::events::evt966::parse_log(l).map(|l| { let c5::logs::Evt966 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f966(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt966::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p967(l: RawLog, t: &[Ty]) -> Out { c5::events::evt967::parse_log(l).map(|l| { let c5::logs::Evt967 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f967(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt967::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p968(l: RawLog, t: &[Ty]) -> Out { c5::events::evt968::parse_log(l).map(|l| { let c5::logs::Evt968 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f968(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt968::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p969(l: RawLog, t: &[Ty]) -> Out { c5::events::evt969::parse_log(l).map(|l| { let c5::logs::Evt969 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f969(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt969::filter(con::<String>(c, 0)) }
fn p970(l: RawLog, t: &[Ty]) -> Out { c5::events::evt970::parse_log(l).map(|l| { let c5::logs::Evt970 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f970(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt970::filter(con::<String>(c, 0), con::<Uint>(c, 1), con::<String>(c, 2)) }
fn p971(l: RawLog, t: &[Ty]) -> Out { c5::events::evt971::parse_log(l).map(|l| { let c5::logs::Evt971 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f971(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt971::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p972(l: RawLog, t: &[Ty]) -> Out { c5::events::evt972::parse_log(l).map(|l| { let c5::logs::Evt972 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f972(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt972::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p973(l: RawLog, t: &[Ty]) -> Out { c5::events::evt973::parse_log(l).map(|l| { let c5::logs::Evt973 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f973(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt973::filter(con::<String>(c, 0)) }
fn p974(l: RawLog, t: &[Ty]) -> Out { c5::events::evt974::parse_log(l).map(|l| { let c5::logs::Evt974 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f974(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt974::filter(con::<Uint>(c, 0), con::<String>(c, 1)) }
fn p975(l: RawLog, t: &[Ty]) -> Out { c5::events::evt975::parse_log(l).map(|l| { let c5::logs::Evt975 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f975(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt975::filter(con::<Uint>(c, 0)) }
fn p976(l: RawLog, t: &[Ty]) -> Out { c5::events::evt976::parse_log(l).map(|l| { let c5::logs::Evt976 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f976(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt976::filter(con::<String>(c, 0)) }
fn p977(l: RawLog, t: &[Ty]) -> Out { c5::events::evt977::parse_log(l).map(|l| { let c5::logs::Evt977 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f977(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt977::filter() }
fn p978(l: RawLog, t: &[Ty]) -> Out { c5::events::evt978::parse_log(l).map(|l| { let c5::logs::Evt978 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f978(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt978::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p979(l: RawLog, t: &[Ty]) -> Out { c5::events::evt979::parse_log(l).map(|l| { let c5::logs::Evt979 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f979(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt979::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p980(l: RawLog, t: &[Ty]) -> Out { c5::events::evt980::parse_log(l).map(|l| { let c5::logs::Evt980 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f980(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt980::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p981(l: RawLog, t: &[Ty]) -> Out { c5::events::evt981::parse_log(l).map(|l| { let c5::logs::Evt981 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f981(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt981::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p982(l: RawLog, t: &[Ty]) -> Out { c5::events::evt982::parse_log(l).map(|l| { let c5::logs::Evt982 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f982(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt982::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p983(l: RawLog, t: &[Ty]) -> Out { c5::events::evt983::parse_log(l).map(|l| { let c5::logs::Evt983 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f983(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt983::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p984(l: RawLog, t: &[Ty]) -> Out { c5::events::evt984::parse_log(l).map(|l| { let c5::logs::Evt984 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f984(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt984::filter(con::<String>(c, 0)) }
fn p985(l: RawLog, t: &[Ty]) -> Out { c5::events::evt985::parse_log(l).map(|l| { let c5::logs::Evt985 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f985(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt985::filter(con::<String>(c, 0), con::<String>(c, 1), con::<Uint>(c, 2)) }
fn p986(l: RawLog, t: &[Ty]) -> Out { c5::events::evt986::parse_log(l).map(|l| { let c5::logs::Evt986 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f986(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt986::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p987(l: RawLog, t: &[Ty]) -> Out { c5::events::evt987::parse_log(l).map(|l| { let c5::logs::Evt987 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f987(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt987::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p988(l: RawLog, t: &[Ty]) -> Out { c5::events::evt988::parse_log(l).map(|l| { let c5::logs::Evt988 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f988(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt988::filter(con::<String>(c, 0)) }
fn p989(l: RawLog, t: &[Ty]) -> Out { c5::events::evt989::parse_log(l).map(|l| { let c5::logs::Evt989 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f989(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt989::filter(con::<String>(c, 0), con::<Uint>(c, 1)) }
fn p990(l: RawLog, t: &[Ty]) -> Out { c5::events::evt990::parse_log(l).map(|l| { let c5::logs::Evt990 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f990(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt990::filter(con::<String>(c, 0)) }
fn p991(l: RawLog, t: &[Ty]) -> Out { c5::events::evt991::parse_log(l).map(|l| { let c5::logs::Evt991 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f991(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt991::filter(con::<Uint>(c, 0)) }
fn p992(l: RawLog, t: &[Ty]) -> Out { c5::events::evt992::parse_log(l).map(|l| { let c5::logs::Evt992 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f992(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt992::filter() }
fn p993(l: RawLog, t: &[Ty]) -> Out { c5::events::evt993::parse_log(l).map(|l| { let c5::logs::Evt993 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f993(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt993::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p994(l: RawLog, t: &[Ty]) -> Out { c5::events::evt994::parse_log(l).map(|l| { let c5::logs::Evt994 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f994(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt994::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p995(l: RawLog, t: &[Ty]) -> Out { c5::events::evt995::parse_log(l).map(|l| { let c5::logs::Evt995 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f995(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt995::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p996(l: RawLog, t: &[Ty]) -> Out { c5::events::evt996::parse_log(l).map(|l| { let c5::logs::Evt996 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f996(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt996::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p997(l: RawLog, t: &[Ty]) -> Out { c5::events::evt997::parse_log(l).map(|l| { let c5::logs::Evt997 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f997(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt997::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p998(l: RawLog, t: &[Ty]) -> Out { c5::events::evt998::parse_log(l).map(|l| { let c5::logs::Evt998 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f998(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt998::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p999(l: RawLog, t: &[Ty]) -> Out { c5::events::evt999::parse_log(l).map(|l| { let c5::logs::Evt999 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f999(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt999::filter(con::<String>(c, 0)) }
fn p1000(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1000::parse_log(l).map(|l| { let c5::logs::Evt1000 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f1000(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1000::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2)) }
fn p1001(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1001::parse_log(l).map(|l| { let c5::logs::Evt1001 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1001(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1001::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p1002(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1002::parse_log(l).map(|l| { let c5::logs::Evt1002 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f1002(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1002::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p1003(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1003::parse_log(l).map(|l| { let c5::logs::Evt1003 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1003(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1003::filter(con::<String>(c, 0)) }
fn p1004(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1004::parse_log(l).map(|l| { let c5::logs::Evt1004 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f1004(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1004::filter(con::<String>(c, 0), con::<String>(c, 1)) }
fn p1005(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1005::parse_log(l).map(|l| { let c5::logs::Evt1005 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1005(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1005::filter(con::<String>(c, 0)) }
fn p1006(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1006::parse_log(l).map(|l| { let c5::logs::Evt1006 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3)] }).map_err(|e| e.to_string()) }
fn f1006(c: &[Tp<Val>]) -> TopicFilter { c5::events::evt1006::filter(con::<String>(c, 0)) }
fn p1007(l: RawLog, t: &[Ty]) -> Out { c5::events::evt1007::parse_log(l).map(|l| { let c5::logs::Evt1007 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1007(_: &[Tp<Val>]) -> TopicFilter { c5::events::evt1007::filter() }
fn p1008(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1008::parse_log(l).map(|l| { let c6::logs::Evt1008 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1008(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1008::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1009(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1009::parse_log(l).map(|l| { let c6::logs::Evt1009 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1009(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1009::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1010(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1010::parse_log(l).map(|l| { let c6::logs::Evt1010 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1010(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1010::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1011(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1011::parse_log(l).map(|l| { let c6::logs::Evt1011 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1011(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1011::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1012(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1012::parse_log(l).map(|l| { let c6::logs::Evt1012 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1012(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1012::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1013(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1013::parse_log(l).map(|l| { let c6::logs::Evt1013 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1013(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1013::filter(con::<Uint>(c, 0), con::<String>(c, 1), con::<bool>(c, 2), con::<Address>(c, 3)) }
fn p1014(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1014::parse_log(l).map(|l| { let c6::logs::Evt1014 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1014(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1014::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1015(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1015::parse_log(l).map(|l| { let c6::logs::Evt1015 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1015(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1015::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1016(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1016::parse_log(l).map(|l| { let c6::logs::Evt1016 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1016(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1016::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1017(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1017::parse_log(l).map(|l| { let c6::logs::Evt1017 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1017(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1017::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1018(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1018::parse_log(l).map(|l| { let c6::logs::Evt1018 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1018(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1018::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1019(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1019::parse_log(l).map(|l| { let c6::logs::Evt1019 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1019(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1019::filter(con::<Hash>(c, 0), con::<Hash>(c, 1), con::<Hash>(c, 2), con::<Hash>(c, 3)) }
fn p1020(l: RawLog, _: &[Ty]) -> Out { c6::events::evt1020::parse_log(l).map(|l| { let c6::logs::Evt1020 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), hash(f1), hash(f2), hash(f3)] }).map_err(|e| e.to_string()) }
fn f1020(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1020::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1021(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1021::parse_log(l).map(|l| { let c6::logs::Evt1021 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), hash(f2), hash(f3), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1021(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1021::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1022(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1022::parse_log(l).map(|l| { let c6::logs::Evt1022 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), hash(f3), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1022(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1022::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1023(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1023::parse_log(l).map(|l| { let c6::logs::Evt1023 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), hash(f1), f2.to_val(&t[2]), hash(f3), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1023(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1023::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1024(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1024::parse_log(l).map(|l| { let c6::logs::Evt1024 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), hash(f1), hash(f2), f3.to_val(&t[3]), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1024(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1024::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1025(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1025::parse_log(l).map(|l| { let c6::logs::Evt1025 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), hash(f1), hash(f2), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1025(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1025::filter(con::<String>(c, 0), con::<String>(c, 1), con::<String>(c, 2), con::<String>(c, 3)) }
fn p1026(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1026::parse_log(l).map(|l| { let c6::logs::Evt1026 { p0: f0, p1: f1, p2: f2, p3: f3 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1026(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1026::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1027(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1027::parse_log(l).map(|l| { let c6::logs::Evt1027 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1027(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1027::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1028(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1028::parse_log(l).map(|l| { let c6::logs::Evt1028 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1028(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1028::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1029(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1029::parse_log(l).map(|l| { let c6::logs::Evt1029 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1029(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1029::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1030(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1030::parse_log(l).map(|l| { let c6::logs::Evt1030 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1030(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1030::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1031(l: RawLog, t: &[Ty]) -> Out { c6::events::evt1031::parse_log(l).map(|l| { let c6::logs::Evt1031 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1031(c: &[Tp<Val>]) -> TopicFilter { c6::events::evt1031::filter(con::<[bool; 2]>(c, 0), con::<Uint>(c, 1), con::<Vec<u8>>(c, 2), con::<[u8; 4]>(c, 3)) }
fn p1032(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1032::parse_log(l).map(|l| { let c7::logs::Evt1032 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1032(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1032::filter(con::<Address>(c, 0)) }
fn p1033(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1033::parse_log(l).map(|l| { let c7::logs::Evt1033 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1033(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1033::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1034(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1034::parse_log(l).map(|l| { let c7::logs::Evt1034 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1034(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1034::filter(con::<Address>(c, 0)) }
fn p1035(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1035::parse_log(l).map(|l| { let c7::logs::Evt1035 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1035(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1035::filter(con::<String>(c, 0)) }
fn p1036(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1036::parse_log(l).map(|l| { let c7::logs::Evt1036 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1036(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1036::filter(con::<[String; 2]>(c, 0)) }
fn p1037(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1037::parse_log(l).map(|l| { let c7::logs::Evt1037 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4)] }).map_err(|e| e.to_string()) }
fn f1037(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1037::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1038(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1038::parse_log(l).map(|l| { let c7::logs::Evt1038 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1038(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1038::filter(con::<[String; 2]>(c, 0)) }
fn p1039(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1039::parse_log(l).map(|l| { let c7::logs::Evt1039 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1039(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1039::filter(con::<Address>(c, 0)) }
fn p1040(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1040::parse_log(l).map(|l| { let c7::logs::Evt1040 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1040(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1040::filter(con::<String>(c, 0)) }
fn p1041(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1041::parse_log(l).map(|l| { let c7::logs::Evt1041 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1041(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1041::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1042(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1042::parse_log(l).map(|l| { let c7::logs::Evt1042 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1042(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1042::filter(con::<String>(c, 0)) }
fn p1043(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1043::parse_log(l).map(|l| { let c7::logs::Evt1043 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4])] }).map_err(|e| e.to_string()) }
fn f1043(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1043::filter(con::<[String; 2]>(c, 0)) }
fn p1044(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1044::parse_log(l).map(|l| { let c7::logs::Evt1044 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5)] }).map_err(|e| e.to_string()) }
fn f1044(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1044::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1045(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1045::parse_log(l).map(|l| { let c7::logs::Evt1045 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1045(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1045::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1046(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1046::parse_log(l).map(|l| { let c7::logs::Evt1046 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1046(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1046::filter(con::<Address>(c, 0)) }
fn p1047(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1047::parse_log(l).map(|l| { let c7::logs::Evt1047 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1047(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1047::filter(con::<String>(c, 0)) }
fn p1048(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1048::parse_log(l).map(|l| { let c7::logs::Evt1048 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1048(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1048::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1049(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1049::parse_log(l).map(|l| { let c7::logs::Evt1049 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1049(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1049::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1050(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1050::parse_log(l).map(|l| { let c7::logs::Evt1050 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1050(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1050::filter(con::<[String; 2]>(c, 0)) }
fn p1051(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1051::parse_log(l).map(|l| { let c7::logs::Evt1051 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1051(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1051::filter(con::<Address>(c, 0)) }
fn p1052(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1052::parse_log(l).map(|l| { let c7::logs::Evt1052 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5)] }).map_err(|e| e.to_string()) }
fn f1052(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1052::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1053(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1053::parse_log(l).map(|l| { let c7::logs::Evt1053 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1053(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1053::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1054(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1054::parse_log(l).map(|l| { let c7::logs::Evt1054 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1054(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1054::filter(con::<String>(c, 0)) }
fn p1055(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1055::parse_log(l).map(|l| { let c7::logs::Evt1055 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5])] }).map_err(|e| e.to_string()) }
fn f1055(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1055::filter(con::<[String; 2]>(c, 0)) }
fn p1056(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1056::parse_log(l).map(|l| { let c7::logs::Evt1056 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1056(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1056::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1057(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1057::parse_log(l).map(|l| { let c7::logs::Evt1057 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1057(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1057::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1058(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1058::parse_log(l).map(|l| { let c7::logs::Evt1058 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1058(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1058::filter(con::<Address>(c, 0)) }
fn p1059(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1059::parse_log(l).map(|l| { let c7::logs::Evt1059 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6)] }).map_err(|e| e.to_string()) }
fn f1059(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1059::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1060(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1060::parse_log(l).map(|l| { let c7::logs::Evt1060 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1060(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1060::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1061(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1061::parse_log(l).map(|l| { let c7::logs::Evt1061 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1061(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1061::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1062(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1062::parse_log(l).map(|l| { let c7::logs::Evt1062 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1062(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1062::filter(con::<[String; 2]>(c, 0)) }
fn p1063(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1063::parse_log(l).map(|l| { let c7::logs::Evt1063 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6)] }).map_err(|e| e.to_string()) }
fn f1063(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1063::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1064(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1064::parse_log(l).map(|l| { let c7::logs::Evt1064 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1064(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1064::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1065(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1065::parse_log(l).map(|l| { let c7::logs::Evt1065 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1065(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1065::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1066(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1066::parse_log(l).map(|l| { let c7::logs::Evt1066 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1066(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1066::filter(con::<String>(c, 0)) }
fn p1067(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1067::parse_log(l).map(|l| { let c7::logs::Evt1067 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6])] }).map_err(|e| e.to_string()) }
fn f1067(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1067::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1068(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1068::parse_log(l).map(|l| { let c7::logs::Evt1068 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1068(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1068::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1069(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1069::parse_log(l).map(|l| { let c7::logs::Evt1069 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1069(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1069::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1070(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1070::parse_log(l).map(|l| { let c7::logs::Evt1070 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7)] }).map_err(|e| e.to_string()) }
fn f1070(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1070::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1071(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1071::parse_log(l).map(|l| { let c7::logs::Evt1071 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1071(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1071::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1072(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1072::parse_log(l).map(|l| { let c7::logs::Evt1072 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1072(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1072::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1073(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1073::parse_log(l).map(|l| { let c7::logs::Evt1073 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1073(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1073::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1074(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1074::parse_log(l).map(|l| { let c7::logs::Evt1074 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1074(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1074::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1075(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1075::parse_log(l).map(|l| { let c7::logs::Evt1075 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1075(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1075::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1076(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1076::parse_log(l).map(|l| { let c7::logs::Evt1076 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1076(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1076::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1077(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1077::parse_log(l).map(|l| { let c7::logs::Evt1077 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1077(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1077::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1078(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1078::parse_log(l).map(|l| { let c7::logs::Evt1078 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7)] }).map_err(|e| e.to_string()) }
fn f1078(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1078::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1079(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1079::parse_log(l).map(|l| { let c7::logs::Evt1079 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7])] }).map_err(|e| e.to_string()) }
fn f1079(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1079::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1080(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1080::parse_log(l).map(|l| { let c7::logs::Evt1080 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1080(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1080::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1081(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1081::parse_log(l).map(|l| { let c7::logs::Evt1081 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1081(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1081::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1082(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1082::parse_log(l).map(|l| { let c7::logs::Evt1082 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1082(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1082::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1083(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1083::parse_log(l).map(|l| { let c7::logs::Evt1083 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1083(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1083::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1084(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1084::parse_log(l).map(|l| { let c7::logs::Evt1084 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1084(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1084::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1085(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1085::parse_log(l).map(|l| { let c7::logs::Evt1085 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8)] }).map_err(|e| e.to_string()) }
fn f1085(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1085::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1086(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1086::parse_log(l).map(|l| { let c7::logs::Evt1086 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1086(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1086::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1087(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1087::parse_log(l).map(|l| { let c7::logs::Evt1087 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1087(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1087::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1088(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1088::parse_log(l).map(|l| { let c7::logs::Evt1088 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1088(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1088::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1089(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1089::parse_log(l).map(|l| { let c7::logs::Evt1089 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8)] }).map_err(|e| e.to_string()) }
fn f1089(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1089::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1090(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1090::parse_log(l).map(|l| { let c7::logs::Evt1090 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1090(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1090::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1091(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1091::parse_log(l).map(|l| { let c7::logs::Evt1091 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8])] }).map_err(|e| e.to_string()) }
fn f1091(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1091::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1092(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1092::parse_log(l).map(|l| { let c7::logs::Evt1092 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9)] }).map_err(|e| e.to_string()) }
fn f1092(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1092::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1093(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1093::parse_log(l).map(|l| { let c7::logs::Evt1093 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1093(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1093::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1094(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1094::parse_log(l).map(|l| { let c7::logs::Evt1094 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1094(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1094::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1095(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1095::parse_log(l).map(|l| { let c7::logs::Evt1095 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1095(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1095::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1096(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1096::parse_log(l).map(|l| { let c7::logs::Evt1096 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9)] }).map_err(|e| e.to_string()) }
fn f1096(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1096::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1097(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1097::parse_log(l).map(|l| { let c7::logs::Evt1097 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1097(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1097::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1098(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1098::parse_log(l).map(|l| { let c7::logs::Evt1098 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1098(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1098::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1099(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1099::parse_log(l).map(|l| { let c7::logs::Evt1099 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1099(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1099::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1100(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1100::parse_log(l).map(|l| { let c7::logs::Evt1100 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1100(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1100::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1101(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1101::parse_log(l).map(|l| { let c7::logs::Evt1101 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1101(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1101::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1102(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1102::parse_log(l).map(|l| { let c7::logs::Evt1102 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1102(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1102::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1103(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1103::parse_log(l).map(|l| { let c7::logs::Evt1103 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9])] }).map_err(|e| e.to_string()) }
fn f1103(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1103::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1104(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1104::parse_log(l).map(|l| { let c7::logs::Evt1104 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1104(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1104::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1105(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1105::parse_log(l).map(|l| { let c7::logs::Evt1105 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1105(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1105::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1106(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1106::parse_log(l).map(|l| { let c7::logs::Evt1106 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1106(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1106::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1107(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1107::parse_log(l).map(|l| { let c7::logs::Evt1107 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1107(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1107::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1108(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1108::parse_log(l).map(|l| { let c7::logs::Evt1108 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1108(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1108::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1109(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1109::parse_log(l).map(|l| { let c7::logs::Evt1109 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1109(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1109::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1110(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1110::parse_log(l).map(|l| { let c7::logs::Evt1110 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1110(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1110::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1111(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1111::parse_log(l).map(|l| { let c7::logs::Evt1111 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), hash(f10)] }).map_err(|e| e.to_string()) }
fn f1111(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1111::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1112(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1112::parse_log(l).map(|l| { let c7::logs::Evt1112 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1112(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1112::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1113(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1113::parse_log(l).map(|l| { let c7::logs::Evt1113 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1113(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1113::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1114(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1114::parse_log(l).map(|l| { let c7::logs::Evt1114 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10])] }).map_err(|e| e.to_string()) }
fn f1114(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1114::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1115(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1115::parse_log(l).map(|l| { let c7::logs::Evt1115 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), hash(f10)] }).map_err(|e| e.to_string()) }
fn f1115(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1115::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1116(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1116::parse_log(l).map(|l| { let c7::logs::Evt1116 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1116(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1116::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1117(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1117::parse_log(l).map(|l| { let c7::logs::Evt1117 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1117(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1117::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1118(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1118::parse_log(l).map(|l| { let c7::logs::Evt1118 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1118(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1118::filter(con::<Address>(c, 0), con::<String>(c, 1)) }
fn p1119(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1119::parse_log(l).map(|l| { let c7::logs::Evt1119 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1119(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1119::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1120(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1120::parse_log(l).map(|l| { let c7::logs::Evt1120 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), hash(f9), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1120(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1120::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1121(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1121::parse_log(l).map(|l| { let c7::logs::Evt1121 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), hash(f4), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1121(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1121::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1122(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1122::parse_log(l).map(|l| { let c7::logs::Evt1122 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1122(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1122::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1123(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1123::parse_log(l).map(|l| { let c7::logs::Evt1123 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), hash(f6), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), hash(f10), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1123(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1123::filter(con::<Address>(c, 0), con::<String>(c, 1), con::<[String; 2]>(c, 2)) }
fn p1124(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1124::parse_log(l).map(|l| { let c7::logs::Evt1124 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), hash(f1), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), hash(f5), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1124(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1124::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1), con::<Address>(c, 2)) }
fn p1125(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1125::parse_log(l).map(|l| { let c7::logs::Evt1125 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), hash(f8), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1125(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1125::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1126(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1126::parse_log(l).map(|l| { let c7::logs::Evt1126 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), hash(f3), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), hash(f7), f8.to_val(&t[8]), f9.to_val(&t[9]), f10.to_val(&t[10]), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1126(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1126::filter(con::<String>(c, 0), con::<[String; 2]>(c, 1)) }
fn p1127(l: RawLog, t: &[Ty]) -> Out { c7::events::evt1127::parse_log(l).map(|l| { let c7::logs::Evt1127 { p0: f0, p1: f1, p2: f2, p3: f3, p4: f4, p5: f5, p6: f6, p7: f7, p8: f8, p9: f9, p10: f10, p11: f11 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), hash(f2), f3.to_val(&t[3]), f4.to_val(&t[4]), f5.to_val(&t[5]), f6.to_val(&t[6]), f7.to_val(&t[7]), f8.to_val(&t[8]), f9.to_val(&t[9]), hash(f10), f11.to_val(&t[11])] }).map_err(|e| e.to_string()) }
fn f1127(c: &[Tp<Val>]) -> TopicFilter { c7::events::evt1127::filter(con::<[String; 2]>(c, 0), con::<Address>(c, 1), con::<String>(c, 2)) }
fn p1128(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1128::parse_log(l).map(|l| { let c8::logs::Evt1128 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1128(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1128::filter(con::<Vec<Address>>(c, 0)) }
fn p1129(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1129::parse_log(l).map(|l| { let c8::logs::Evt1129 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1129(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1129::filter(con::<[Address; 2]>(c, 0), con::<Address>(c, 1)) }
fn p1130(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1130::parse_log(l).map(|l| { let c8::logs::Evt1130 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1130(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1130::filter(con::<Vec<bool>>(c, 0)) }
fn p1131(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1131::parse_log(l).map(|l| { let c8::logs::Evt1131 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1131(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1131::filter(con::<[bool; 2]>(c, 0), con::<bool>(c, 1)) }
fn p1132(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1132::parse_log(l).map(|l| { let c8::logs::Evt1132 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1132(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1132::filter(con::<Vec<String>>(c, 0)) }
fn p1133(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1133::parse_log(l).map(|l| { let c8::logs::Evt1133 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f1133(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1133::filter(con::<[String; 2]>(c, 0), con::<String>(c, 1)) }
fn p1134(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1134::parse_log(l).map(|l| { let c8::logs::Evt1134 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1134(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1134::filter(con::<Vec<Vec<u8>>>(c, 0)) }
fn p1135(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1135::parse_log(l).map(|l| { let c8::logs::Evt1135 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), hash(f2)] }).map_err(|e| e.to_string()) }
fn f1135(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1135::filter(con::<[Vec<u8>; 2]>(c, 0), con::<Vec<u8>>(c, 1)) }
fn p1136(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1136::parse_log(l).map(|l| { let c8::logs::Evt1136 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1136(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1136::filter(con::<Vec<Uint>>(c, 0)) }
fn p1137(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1137::parse_log(l).map(|l| { let c8::logs::Evt1137 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1137(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1137::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1138(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1138::parse_log(l).map(|l| { let c8::logs::Evt1138 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1138(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1138::filter(con::<Vec<Uint>>(c, 0)) }
fn p1139(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1139::parse_log(l).map(|l| { let c8::logs::Evt1139 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1139(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1139::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1140(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1140::parse_log(l).map(|l| { let c8::logs::Evt1140 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1140(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1140::filter(con::<Vec<Uint>>(c, 0)) }
fn p1141(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1141::parse_log(l).map(|l| { let c8::logs::Evt1141 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1141(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1141::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1142(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1142::parse_log(l).map(|l| { let c8::logs::Evt1142 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1142(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1142::filter(con::<Vec<Uint>>(c, 0)) }
fn p1143(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1143::parse_log(l).map(|l| { let c8::logs::Evt1143 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1143(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1143::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1144(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1144::parse_log(l).map(|l| { let c8::logs::Evt1144 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1144(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1144::filter(con::<Vec<Uint>>(c, 0)) }
fn p1145(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1145::parse_log(l).map(|l| { let c8::logs::Evt1145 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1145(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1145::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1146(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1146::parse_log(l).map(|l| { let c8::logs::Evt1146 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1146(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1146::filter(con::<Vec<Uint>>(c, 0)) }
fn p1147(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1147::parse_log(l).map(|l| { let c8::logs::Evt1147 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1147(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1147::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1148(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1148::parse_log(l).map(|l| { let c8::logs::Evt1148 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1148(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1148::filter(con::<Vec<Uint>>(c, 0)) }
fn p1149(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1149::parse_log(l).map(|l| { let c8::logs::Evt1149 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1149(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1149::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1150(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1150::parse_log(l).map(|l| { let c8::logs::Evt1150 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1150(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1150::filter(con::<Vec<Uint>>(c, 0)) }
fn p1151(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1151::parse_log(l).map(|l| { let c8::logs::Evt1151 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1151(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1151::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1152(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1152::parse_log(l).map(|l| { let c8::logs::Evt1152 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1152(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1152::filter(con::<Vec<Uint>>(c, 0)) }
fn p1153(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1153::parse_log(l).map(|l| { let c8::logs::Evt1153 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1153(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1153::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1154(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1154::parse_log(l).map(|l| { let c8::logs::Evt1154 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1154(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1154::filter(con::<Vec<Uint>>(c, 0)) }
fn p1155(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1155::parse_log(l).map(|l| { let c8::logs::Evt1155 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1155(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1155::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1156(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1156::parse_log(l).map(|l| { let c8::logs::Evt1156 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1156(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1156::filter(con::<Vec<Uint>>(c, 0)) }
fn p1157(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1157::parse_log(l).map(|l| { let c8::logs::Evt1157 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1157(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1157::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1158(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1158::parse_log(l).map(|l| { let c8::logs::Evt1158 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1158(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1158::filter(con::<Vec<Uint>>(c, 0)) }
fn p1159(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1159::parse_log(l).map(|l| { let c8::logs::Evt1159 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1159(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1159::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1160(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1160::parse_log(l).map(|l| { let c8::logs::Evt1160 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1160(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1160::filter(con::<Vec<Uint>>(c, 0)) }
fn p1161(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1161::parse_log(l).map(|l| { let c8::logs::Evt1161 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1161(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1161::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1162(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1162::parse_log(l).map(|l| { let c8::logs::Evt1162 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1162(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1162::filter(con::<Vec<Uint>>(c, 0)) }
fn p1163(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1163::parse_log(l).map(|l| { let c8::logs::Evt1163 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1163(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1163::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1164(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1164::parse_log(l).map(|l| { let c8::logs::Evt1164 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1164(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1164::filter(con::<Vec<Uint>>(c, 0)) }
fn p1165(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1165::parse_log(l).map(|l| { let c8::logs::Evt1165 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1165(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1165::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1166(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1166::parse_log(l).map(|l| { let c8::logs::Evt1166 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1166(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1166::filter(con::<Vec<Uint>>(c, 0)) }
fn p1167(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1167::parse_log(l).map(|l| { let c8::logs::Evt1167 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1167(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1167::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1168(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1168::parse_log(l).map(|l| { let c8::logs::Evt1168 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1168(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1168::filter(con::<Vec<Uint>>(c, 0)) }
fn p1169(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1169::parse_log(l).map(|l| { let c8::logs::Evt1169 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1169(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1169::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1170(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1170::parse_log(l).map(|l| { let c8::logs::Evt1170 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1170(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1170::filter(con::<Vec<Uint>>(c, 0)) }
fn p1171(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1171::parse_log(l).map(|l| { let c8::logs::Evt1171 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1171(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1171::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1172(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1172::parse_log(l).map(|l| { let c8::logs::Evt1172 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1172(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1172::filter(con::<Vec<Uint>>(c, 0)) }
fn p1173(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1173::parse_log(l).map(|l| { let c8::logs::Evt1173 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1173(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1173::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1174(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1174::parse_log(l).map(|l| { let c8::logs::Evt1174 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1174(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1174::filter(con::<Vec<Uint>>(c, 0)) }
fn p1175(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1175::parse_log(l).map(|l| { let c8::logs::Evt1175 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1175(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1175::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1176(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1176::parse_log(l).map(|l| { let c8::logs::Evt1176 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1176(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1176::filter(con::<Vec<Uint>>(c, 0)) }
fn p1177(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1177::parse_log(l).map(|l| { let c8::logs::Evt1177 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1177(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1177::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1178(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1178::parse_log(l).map(|l| { let c8::logs::Evt1178 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1178(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1178::filter(con::<Vec<Uint>>(c, 0)) }
fn p1179(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1179::parse_log(l).map(|l| { let c8::logs::Evt1179 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1179(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1179::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1180(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1180::parse_log(l).map(|l| { let c8::logs::Evt1180 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1180(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1180::filter(con::<Vec<Uint>>(c, 0)) }
fn p1181(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1181::parse_log(l).map(|l| { let c8::logs::Evt1181 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1181(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1181::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1182(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1182::parse_log(l).map(|l| { let c8::logs::Evt1182 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1182(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1182::filter(con::<Vec<Uint>>(c, 0)) }
fn p1183(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1183::parse_log(l).map(|l| { let c8::logs::Evt1183 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1183(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1183::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1184(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1184::parse_log(l).map(|l| { let c8::logs::Evt1184 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1184(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1184::filter(con::<Vec<Uint>>(c, 0)) }
fn p1185(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1185::parse_log(l).map(|l| { let c8::logs::Evt1185 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1185(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1185::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1186(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1186::parse_log(l).map(|l| { let c8::logs::Evt1186 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1186(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1186::filter(con::<Vec<Uint>>(c, 0)) }
fn p1187(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1187::parse_log(l).map(|l| { let c8::logs::Evt1187 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1187(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1187::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1188(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1188::parse_log(l).map(|l| { let c8::logs::Evt1188 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1188(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1188::filter(con::<Vec<Uint>>(c, 0)) }
fn p1189(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1189::parse_log(l).map(|l| { let c8::logs::Evt1189 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1189(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1189::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1190(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1190::parse_log(l).map(|l| { let c8::logs::Evt1190 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1190(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1190::filter(con::<Vec<Uint>>(c, 0)) }
fn p1191(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1191::parse_log(l).map(|l| { let c8::logs::Evt1191 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1191(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1191::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1192(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1192::parse_log(l).map(|l| { let c8::logs::Evt1192 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1192(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1192::filter(con::<Vec<Uint>>(c, 0)) }
fn p1193(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1193::parse_log(l).map(|l| { let c8::logs::Evt1193 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1193(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1193::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1194(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1194::parse_log(l).map(|l| { let c8::logs::Evt1194 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1194(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1194::filter(con::<Vec<Uint>>(c, 0)) }
fn p1195(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1195::parse_log(l).map(|l| { let c8::logs::Evt1195 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1195(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1195::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1196(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1196::parse_log(l).map(|l| { let c8::logs::Evt1196 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1196(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1196::filter(con::<Vec<Uint>>(c, 0)) }
fn p1197(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1197::parse_log(l).map(|l| { let c8::logs::Evt1197 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1197(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1197::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1198(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1198::parse_log(l).map(|l| { let c8::logs::Evt1198 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1198(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1198::filter(con::<Vec<Uint>>(c, 0)) }
fn p1199(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1199::parse_log(l).map(|l| { let c8::logs::Evt1199 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1199(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1199::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1200(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1200::parse_log(l).map(|l| { let c8::logs::Evt1200 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1200(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1200::filter(con::<Vec<Uint>>(c, 0)) }
fn p1201(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1201::parse_log(l).map(|l| { let c8::logs::Evt1201 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1201(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1201::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1202(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1202::parse_log(l).map(|l| { let c8::logs::Evt1202 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1202(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1202::filter(con::<Vec<Uint>>(c, 0)) }
fn p1203(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1203::parse_log(l).map(|l| { let c8::logs::Evt1203 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1203(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1203::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1204(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1204::parse_log(l).map(|l| { let c8::logs::Evt1204 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1204(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1204::filter(con::<Vec<Uint>>(c, 0)) }
fn p1205(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1205::parse_log(l).map(|l| { let c8::logs::Evt1205 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1205(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1205::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1206(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1206::parse_log(l).map(|l| { let c8::logs::Evt1206 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1206(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1206::filter(con::<Vec<Uint>>(c, 0)) }
fn p1207(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1207::parse_log(l).map(|l| { let c8::logs::Evt1207 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1207(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1207::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1208(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1208::parse_log(l).map(|l| { let c8::logs::Evt1208 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1208(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1208::filter(con::<Vec<Uint>>(c, 0)) }
fn p1209(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1209::parse_log(l).map(|l| { let c8::logs::Evt1209 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1209(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1209::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1210(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1210::parse_log(l).map(|l| { let c8::logs::Evt1210 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1210(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1210::filter(con::<Vec<Uint>>(c, 0)) }
fn p1211(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1211::parse_log(l).map(|l| { let c8::logs::Evt1211 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1211(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1211::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1212(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1212::parse_log(l).map(|l| { let c8::logs::Evt1212 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1212(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1212::filter(con::<Vec<Uint>>(c, 0)) }
fn p1213(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1213::parse_log(l).map(|l| { let c8::logs::Evt1213 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1213(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1213::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1214(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1214::parse_log(l).map(|l| { let c8::logs::Evt1214 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1214(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1214::filter(con::<Vec<Uint>>(c, 0)) }
fn p1215(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1215::parse_log(l).map(|l| { let c8::logs::Evt1215 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1215(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1215::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1216(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1216::parse_log(l).map(|l| { let c8::logs::Evt1216 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1216(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1216::filter(con::<Vec<Uint>>(c, 0)) }
fn p1217(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1217::parse_log(l).map(|l| { let c8::logs::Evt1217 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1217(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1217::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1218(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1218::parse_log(l).map(|l| { let c8::logs::Evt1218 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1218(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1218::filter(con::<Vec<Uint>>(c, 0)) }
fn p1219(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1219::parse_log(l).map(|l| { let c8::logs::Evt1219 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1219(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1219::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1220(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1220::parse_log(l).map(|l| { let c8::logs::Evt1220 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1220(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1220::filter(con::<Vec<Uint>>(c, 0)) }
fn p1221(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1221::parse_log(l).map(|l| { let c8::logs::Evt1221 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1221(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1221::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1222(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1222::parse_log(l).map(|l| { let c8::logs::Evt1222 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1222(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1222::filter(con::<Vec<Uint>>(c, 0)) }
fn p1223(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1223::parse_log(l).map(|l| { let c8::logs::Evt1223 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1223(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1223::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1224(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1224::parse_log(l).map(|l| { let c8::logs::Evt1224 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1224(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1224::filter(con::<Vec<Uint>>(c, 0)) }
fn p1225(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1225::parse_log(l).map(|l| { let c8::logs::Evt1225 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1225(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1225::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1226(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1226::parse_log(l).map(|l| { let c8::logs::Evt1226 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1226(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1226::filter(con::<Vec<Uint>>(c, 0)) }
fn p1227(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1227::parse_log(l).map(|l| { let c8::logs::Evt1227 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1227(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1227::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1228(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1228::parse_log(l).map(|l| { let c8::logs::Evt1228 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1228(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1228::filter(con::<Vec<Uint>>(c, 0)) }
fn p1229(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1229::parse_log(l).map(|l| { let c8::logs::Evt1229 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1229(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1229::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1230(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1230::parse_log(l).map(|l| { let c8::logs::Evt1230 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1230(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1230::filter(con::<Vec<Uint>>(c, 0)) }
fn p1231(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1231::parse_log(l).map(|l| { let c8::logs::Evt1231 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1231(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1231::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1232(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1232::parse_log(l).map(|l| { let c8::logs::Evt1232 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1232(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1232::filter(con::<Vec<Uint>>(c, 0)) }
fn p1233(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1233::parse_log(l).map(|l| { let c8::logs::Evt1233 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1233(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1233::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1234(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1234::parse_log(l).map(|l| { let c8::logs::Evt1234 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1234(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1234::filter(con::<Vec<Uint>>(c, 0)) }
fn p1235(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1235::parse_log(l).map(|l| { let c8::logs::Evt1235 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1235(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1235::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1236(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1236::parse_log(l).map(|l| { let c8::logs::Evt1236 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1236(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1236::filter(con::<Vec<Uint>>(c, 0)) }
fn p1237(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1237::parse_log(l).map(|l| { let c8::logs::Evt1237 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1237(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1237::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1238(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1238::parse_log(l).map(|l| { let c8::logs::Evt1238 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1238(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1238::filter(con::<Vec<Uint>>(c, 0)) }
fn p1239(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1239::parse_log(l).map(|l| { let c8::logs::Evt1239 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1239(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1239::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1240(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1240::parse_log(l).map(|l| { let c8::logs::Evt1240 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1240(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1240::filter(con::<Vec<Uint>>(c, 0)) }
fn p1241(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1241::parse_log(l).map(|l| { let c8::logs::Evt1241 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1241(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1241::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1242(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1242::parse_log(l).map(|l| { let c8::logs::Evt1242 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1242(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1242::filter(con::<Vec<Uint>>(c, 0)) }
fn p1243(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1243::parse_log(l).map(|l| { let c8::logs::Evt1243 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1243(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1243::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1244(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1244::parse_log(l).map(|l| { let c8::logs::Evt1244 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1244(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1244::filter(con::<Vec<Uint>>(c, 0)) }
fn p1245(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1245::parse_log(l).map(|l| { let c8::logs::Evt1245 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1245(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1245::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1246(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1246::parse_log(l).map(|l| { let c8::logs::Evt1246 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1246(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1246::filter(con::<Vec<Uint>>(c, 0)) }
fn p1247(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1247::parse_log(l).map(|l| { let c8::logs::Evt1247 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1247(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1247::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1248(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1248::parse_log(l).map(|l| { let c8::logs::Evt1248 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1248(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1248::filter(con::<Vec<Uint>>(c, 0)) }
fn p1249(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1249::parse_log(l).map(|l| { let c8::logs::Evt1249 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1249(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1249::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1250(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1250::parse_log(l).map(|l| { let c8::logs::Evt1250 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1250(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1250::filter(con::<Vec<Uint>>(c, 0)) }
fn p1251(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1251::parse_log(l).map(|l| { let c8::logs::Evt1251 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1251(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1251::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1252(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1252::parse_log(l).map(|l| { let c8::logs::Evt1252 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1252(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1252::filter(con::<Vec<Uint>>(c, 0)) }
fn p1253(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1253::parse_log(l).map(|l| { let c8::logs::Evt1253 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1253(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1253::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1254(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1254::parse_log(l).map(|l| { let c8::logs::Evt1254 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1254(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1254::filter(con::<Vec<Uint>>(c, 0)) }
fn p1255(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1255::parse_log(l).map(|l| { let c8::logs::Evt1255 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1255(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1255::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1256(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1256::parse_log(l).map(|l| { let c8::logs::Evt1256 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1256(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1256::filter(con::<Vec<Uint>>(c, 0)) }
fn p1257(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1257::parse_log(l).map(|l| { let c8::logs::Evt1257 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1257(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1257::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1258(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1258::parse_log(l).map(|l| { let c8::logs::Evt1258 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1258(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1258::filter(con::<Vec<Uint>>(c, 0)) }
fn p1259(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1259::parse_log(l).map(|l| { let c8::logs::Evt1259 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1259(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1259::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1260(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1260::parse_log(l).map(|l| { let c8::logs::Evt1260 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1260(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1260::filter(con::<Vec<Uint>>(c, 0)) }
fn p1261(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1261::parse_log(l).map(|l| { let c8::logs::Evt1261 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1261(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1261::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1262(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1262::parse_log(l).map(|l| { let c8::logs::Evt1262 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1262(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1262::filter(con::<Vec<Uint>>(c, 0)) }
fn p1263(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1263::parse_log(l).map(|l| { let c8::logs::Evt1263 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1263(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1263::filter(con::<[Uint; 2]>(c, 0), con::<Uint>(c, 1)) }
fn p1264(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1264::parse_log(l).map(|l| { let c8::logs::Evt1264 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1264(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1264::filter(con::<Vec<[u8; 1]>>(c, 0)) }
fn p1265(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1265::parse_log(l).map(|l| { let c8::logs::Evt1265 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1265(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1265::filter(con::<[[u8; 1]; 2]>(c, 0), con::<[u8; 1]>(c, 1)) }
fn p1266(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1266::parse_log(l).map(|l| { let c8::logs::Evt1266 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1266(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1266::filter(con::<Vec<[u8; 2]>>(c, 0)) }
fn p1267(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1267::parse_log(l).map(|l| { let c8::logs::Evt1267 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1267(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1267::filter(con::<[[u8; 2]; 2]>(c, 0), con::<[u8; 2]>(c, 1)) }
fn p1268(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1268::parse_log(l).map(|l| { let c8::logs::Evt1268 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1268(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1268::filter(con::<Vec<[u8; 3]>>(c, 0)) }
fn p1269(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1269::parse_log(l).map(|l| { let c8::logs::Evt1269 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1269(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1269::filter(con::<[[u8; 3]; 2]>(c, 0), con::<[u8; 3]>(c, 1)) }
fn p1270(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1270::parse_log(l).map(|l| { let c8::logs::Evt1270 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1270(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1270::filter(con::<Vec<[u8; 4]>>(c, 0)) }
fn p1271(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1271::parse_log(l).map(|l| { let c8::logs::Evt1271 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1271(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1271::filter(con::<[[u8; 4]; 2]>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1272(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1272::parse_log(l).map(|l| { let c8::logs::Evt1272 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1272(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1272::filter(con::<Vec<[u8; 5]>>(c, 0)) }
fn p1273(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1273::parse_log(l).map(|l| { let c8::logs::Evt1273 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1273(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1273::filter(con::<[[u8; 5]; 2]>(c, 0), con::<[u8; 5]>(c, 1)) }
fn p1274(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1274::parse_log(l).map(|l| { let c8::logs::Evt1274 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1274(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1274::filter(con::<Vec<[u8; 6]>>(c, 0)) }
fn p1275(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1275::parse_log(l).map(|l| { let c8::logs::Evt1275 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1275(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1275::filter(con::<[[u8; 6]; 2]>(c, 0), con::<[u8; 6]>(c, 1)) }
fn p1276(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1276::parse_log(l).map(|l| { let c8::logs::Evt1276 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1276(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1276::filter(con::<Vec<[u8; 7]>>(c, 0)) }
fn p1277(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1277::parse_log(l).map(|l| { let c8::logs::Evt1277 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1277(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1277::filter(con::<[[u8; 7]; 2]>(c, 0), con::<[u8; 7]>(c, 1)) }
fn p1278(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1278::parse_log(l).map(|l| { let c8::logs::Evt1278 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1278(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1278::filter(con::<Vec<[u8; 8]>>(c, 0)) }
fn p1279(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1279::parse_log(l).map(|l| { let c8::logs::Evt1279 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1279(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1279::filter(con::<[[u8; 8]; 2]>(c, 0), con::<[u8; 8]>(c, 1)) }
fn p1280(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1280::parse_log(l).map(|l| { let c8::logs::Evt1280 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1280(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1280::filter(con::<Vec<[u8; 9]>>(c, 0)) }
fn p1281(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1281::parse_log(l).map(|l| { let c8::logs::Evt1281 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1281(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1281::filter(con::<[[u8; 9]; 2]>(c, 0), con::<[u8; 9]>(c, 1)) }
fn p1282(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1282::parse_log(l).map(|l| { let c8::logs::Evt1282 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1282(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1282::filter(con::<Vec<[u8; 10]>>(c, 0)) }
fn p1283(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1283::parse_log(l).map(|l| { let c8::logs::Evt1283 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1283(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1283::filter(con::<[[u8; 10]; 2]>(c, 0), con::<[u8; 10]>(c, 1)) }
fn p1284(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1284::parse_log(l).map(|l| { let c8::logs::Evt1284 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1284(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1284::filter(con::<Vec<[u8; 11]>>(c, 0)) }
fn p1285(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1285::parse_log(l).map(|l| { let c8::logs::Evt1285 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1285(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1285::filter(con::<[[u8; 11]; 2]>(c, 0), con::<[u8; 11]>(c, 1)) }
fn p1286(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1286::parse_log(l).map(|l| { let c8::logs::Evt1286 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1286(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1286::filter(con::<Vec<[u8; 12]>>(c, 0)) }
fn p1287(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1287::parse_log(l).map(|l| { let c8::logs::Evt1287 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1287(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1287::filter(con::<[[u8; 12]; 2]>(c, 0), con::<[u8; 12]>(c, 1)) }
fn p1288(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1288::parse_log(l).map(|l| { let c8::logs::Evt1288 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1288(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1288::filter(con::<Vec<[u8; 13]>>(c, 0)) }
fn p1289(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1289::parse_log(l).map(|l| { let c8::logs::Evt1289 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1289(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1289::filter(con::<[[u8; 13]; 2]>(c, 0), con::<[u8; 13]>(c, 1)) }
fn p1290(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1290::parse_log(l).map(|l| { let c8::logs::Evt1290 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1290(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1290::filter(con::<Vec<[u8; 14]>>(c, 0)) }
fn p1291(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1291::parse_log(l).map(|l| { let c8::logs::Evt1291 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1291(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1291::filter(con::<[[u8; 14]; 2]>(c, 0), con::<[u8; 14]>(c, 1)) }
fn p1292(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1292::parse_log(l).map(|l| { let c8::logs::Evt1292 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1292(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1292::filter(con::<Vec<[u8; 15]>>(c, 0)) }
fn p1293(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1293::parse_log(l).map(|l| { let c8::logs::Evt1293 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1293(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1293::filter(con::<[[u8; 15]; 2]>(c, 0), con::<[u8; 15]>(c, 1)) }
fn p1294(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1294::parse_log(l).map(|l| { let c8::logs::Evt1294 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1294(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1294::filter(con::<Vec<[u8; 16]>>(c, 0)) }
fn p1295(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1295::parse_log(l).map(|l| { let c8::logs::Evt1295 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1295(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1295::filter(con::<[[u8; 16]; 2]>(c, 0), con::<[u8; 16]>(c, 1)) }
fn p1296(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1296::parse_log(l).map(|l| { let c8::logs::Evt1296 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1296(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1296::filter(con::<Vec<[u8; 17]>>(c, 0)) }
fn p1297(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1297::parse_log(l).map(|l| { let c8::logs::Evt1297 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1297(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1297::filter(con::<[[u8; 17]; 2]>(c, 0), con::<[u8; 17]>(c, 1)) }
fn p1298(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1298::parse_log(l).map(|l| { let c8::logs::Evt1298 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1298(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1298::filter(con::<Vec<[u8; 18]>>(c, 0)) }
fn p1299(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1299::parse_log(l).map(|l| { let c8::logs::Evt1299 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1299(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1299::filter(con::<[[u8; 18]; 2]>(c, 0), con::<[u8; 18]>(c, 1)) }
fn p1300(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1300::parse_log(l).map(|l| { let c8::logs::Evt1300 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1300(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1300::filter(con::<Vec<[u8; 19]>>(c, 0)) }
fn p1301(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1301::parse_log(l).map(|l| { let c8::logs::Evt1301 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1301(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1301::filter(con::<[[u8; 19]; 2]>(c, 0), con::<[u8; 19]>(c, 1)) }
fn p1302(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1302::parse_log(l).map(|l| { let c8::logs::Evt1302 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1302(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1302::filter(con::<Vec<[u8; 20]>>(c, 0)) }
fn p1303(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1303::parse_log(l).map(|l| { let c8::logs::Evt1303 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1303(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1303::filter(con::<[[u8; 20]; 2]>(c, 0), con::<[u8; 20]>(c, 1)) }
fn p1304(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1304::parse_log(l).map(|l| { let c8::logs::Evt1304 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1304(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1304::filter(con::<Vec<[u8; 21]>>(c, 0)) }
fn p1305(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1305::parse_log(l).map(|l| { let c8::logs::Evt1305 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1305(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1305::filter(con::<[[u8; 21]; 2]>(c, 0), con::<[u8; 21]>(c, 1)) }
fn p1306(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1306::parse_log(l).map(|l| { let c8::logs::Evt1306 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1306(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1306::filter(con::<Vec<[u8; 22]>>(c, 0)) }
fn p1307(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1307::parse_log(l).map(|l| { let c8::logs::Evt1307 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1307(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1307::filter(con::<[[u8; 22]; 2]>(c, 0), con::<[u8; 22]>(c, 1)) }
fn p1308(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1308::parse_log(l).map(|l| { let c8::logs::Evt1308 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1308(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1308::filter(con::<Vec<[u8; 23]>>(c, 0)) }
fn p1309(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1309::parse_log(l).map(|l| { let c8::logs::Evt1309 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1309(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1309::filter(con::<[[u8; 23]; 2]>(c, 0), con::<[u8; 23]>(c, 1)) }
fn p1310(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1310::parse_log(l).map(|l| { let c8::logs::Evt1310 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1310(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1310::filter(con::<Vec<[u8; 24]>>(c, 0)) }
fn p1311(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1311::parse_log(l).map(|l| { let c8::logs::Evt1311 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1311(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1311::filter(con::<[[u8; 24]; 2]>(c, 0), con::<[u8; 24]>(c, 1)) }
fn p1312(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1312::parse_log(l).map(|l| { let c8::logs::Evt1312 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1312(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1312::filter(con::<Vec<[u8; 25]>>(c, 0)) }
fn p1313(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1313::parse_log(l).map(|l| { let c8::logs::Evt1313 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1313(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1313::filter(con::<[[u8; 25]; 2]>(c, 0), con::<[u8; 25]>(c, 1)) }
fn p1314(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1314::parse_log(l).map(|l| { let c8::logs::Evt1314 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1314(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1314::filter(con::<Vec<[u8; 26]>>(c, 0)) }
fn p1315(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1315::parse_log(l).map(|l| { let c8::logs::Evt1315 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1315(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1315::filter(con::<[[u8; 26]; 2]>(c, 0), con::<[u8; 26]>(c, 1)) }
fn p1316(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1316::parse_log(l).map(|l| { let c8::logs::Evt1316 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1316(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1316::filter(con::<Vec<[u8; 27]>>(c, 0)) }
fn p1317(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1317::parse_log(l).map(|l| { let c8::logs::Evt1317 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1317(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1317::filter(con::<[[u8; 27]; 2]>(c, 0), con::<[u8; 27]>(c, 1)) }
fn p1318(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1318::parse_log(l).map(|l| { let c8::logs::Evt1318 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1318(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1318::filter(con::<Vec<[u8; 28]>>(c, 0)) }
fn p1319(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1319::parse_log(l).map(|l| { let c8::logs::Evt1319 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1319(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1319::filter(con::<[[u8; 28]; 2]>(c, 0), con::<[u8; 28]>(c, 1)) }
fn p1320(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1320::parse_log(l).map(|l| { let c8::logs::Evt1320 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1320(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1320::filter(con::<Vec<[u8; 29]>>(c, 0)) }
fn p1321(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1321::parse_log(l).map(|l| { let c8::logs::Evt1321 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1321(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1321::filter(con::<[[u8; 29]; 2]>(c, 0), con::<[u8; 29]>(c, 1)) }
fn p1322(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1322::parse_log(l).map(|l| { let c8::logs::Evt1322 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1322(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1322::filter(con::<Vec<[u8; 30]>>(c, 0)) }
fn p1323(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1323::parse_log(l).map(|l| { let c8::logs::Evt1323 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1323(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1323::filter(con::<[[u8; 30]; 2]>(c, 0), con::<[u8; 30]>(c, 1)) }
fn p1324(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1324::parse_log(l).map(|l| { let c8::logs::Evt1324 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1324(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1324::filter(con::<Vec<[u8; 31]>>(c, 0)) }
fn p1325(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1325::parse_log(l).map(|l| { let c8::logs::Evt1325 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1325(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1325::filter(con::<[[u8; 31]; 2]>(c, 0), con::<[u8; 31]>(c, 1)) }
fn p1326(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1326::parse_log(l).map(|l| { let c8::logs::Evt1326 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1326(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1326::filter(con::<Vec<Hash>>(c, 0)) }
fn p1327(l: RawLog, t: &[Ty]) -> Out { c8::events::evt1327::parse_log(l).map(|l| { let c8::logs::Evt1327 { p0: f0, p1: f1, p2: f2 } = l; vec![hash(f0), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1327(c: &[Tp<Val>]) -> TopicFilter { c8::events::evt1327::filter(con::<[Hash; 2]>(c, 0), con::<Hash>(c, 1)) }
fn p1328(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1328::parse_log(l).map(|l| { let c9::logs::Evt1328 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1328(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1328::filter(con::<bool>(c, 0)) }
fn p1329(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1329::parse_log(l).map(|l| { let c9::logs::Evt1329 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1329(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1329::filter(con::<[Uint; 3]>(c, 0)) }
fn p1330(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1330::parse_log(l).map(|l| { let c9::logs::Evt1330 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1330(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1330::filter(con::<Vec<[Hash; 3]>>(c, 0)) }
fn p1331(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1331::parse_log(l).map(|l| { let c9::logs::Evt1331 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1331(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1331::filter(con::<bool>(c, 0)) }
fn p1332(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1332::parse_log(l).map(|l| { let c9::logs::Evt1332 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1332(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1332::filter(con::<[Uint; 4]>(c, 0)) }
fn p1333(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1333::parse_log(l).map(|l| { let c9::logs::Evt1333 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1333(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1333::filter(con::<Vec<[Hash; 4]>>(c, 0)) }
fn p1334(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1334::parse_log(l).map(|l| { let c9::logs::Evt1334 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1334(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1334::filter(con::<bool>(c, 0)) }
fn p1335(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1335::parse_log(l).map(|l| { let c9::logs::Evt1335 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1335(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1335::filter(con::<[Uint; 5]>(c, 0)) }
fn p1336(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1336::parse_log(l).map(|l| { let c9::logs::Evt1336 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1336(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1336::filter(con::<Vec<[Hash; 5]>>(c, 0)) }
fn p1337(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1337::parse_log(l).map(|l| { let c9::logs::Evt1337 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1337(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1337::filter(con::<bool>(c, 0)) }
fn p1338(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1338::parse_log(l).map(|l| { let c9::logs::Evt1338 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1338(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1338::filter(con::<[Uint; 6]>(c, 0)) }
fn p1339(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1339::parse_log(l).map(|l| { let c9::logs::Evt1339 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1339(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1339::filter(con::<Vec<[Hash; 6]>>(c, 0)) }
fn p1340(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1340::parse_log(l).map(|l| { let c9::logs::Evt1340 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1340(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1340::filter(con::<bool>(c, 0)) }
fn p1341(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1341::parse_log(l).map(|l| { let c9::logs::Evt1341 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1341(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1341::filter(con::<[Uint; 7]>(c, 0)) }
fn p1342(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1342::parse_log(l).map(|l| { let c9::logs::Evt1342 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1342(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1342::filter(con::<Vec<[Hash; 7]>>(c, 0)) }
fn p1343(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1343::parse_log(l).map(|l| { let c9::logs::Evt1343 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1343(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1343::filter(con::<bool>(c, 0)) }
fn p1344(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1344::parse_log(l).map(|l| { let c9::logs::Evt1344 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1344(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1344::filter(con::<[Uint; 8]>(c, 0)) }
fn p1345(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1345::parse_log(l).map(|l| { let c9::logs::Evt1345 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1345(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1345::filter(con::<Vec<[Hash; 8]>>(c, 0)) }
fn p1346(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1346::parse_log(l).map(|l| { let c9::logs::Evt1346 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1346(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1346::filter(con::<bool>(c, 0)) }
fn p1347(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1347::parse_log(l).map(|l| { let c9::logs::Evt1347 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1347(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1347::filter(con::<[Uint; 9]>(c, 0)) }
fn p1348(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1348::parse_log(l).map(|l| { let c9::logs::Evt1348 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1348(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1348::filter(con::<Vec<[Hash; 9]>>(c, 0)) }
fn p1349(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1349::parse_log(l).map(|l| { let c9::logs::Evt1349 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1349(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1349::filter(con::<bool>(c, 0)) }
fn p1350(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1350::parse_log(l).map(|l| { let c9::logs::Evt1350 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1350(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1350::filter(con::<[Uint; 10]>(c, 0)) }
fn p1351(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1351::parse_log(l).map(|l| { let c9::logs::Evt1351 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1351(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1351::filter(con::<Vec<[Hash; 10]>>(c, 0)) }
fn p1352(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1352::parse_log(l).map(|l| { let c9::logs::Evt1352 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1352(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1352::filter(con::<bool>(c, 0)) }
fn p1353(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1353::parse_log(l).map(|l| { let c9::logs::Evt1353 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1353(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1353::filter(con::<[Uint; 11]>(c, 0)) }
fn p1354(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1354::parse_log(l).map(|l| { let c9::logs::Evt1354 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1354(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1354::filter(con::<Vec<[Hash; 11]>>(c, 0)) }
fn p1355(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1355::parse_log(l).map(|l| { let c9::logs::Evt1355 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1355(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1355::filter(con::<bool>(c, 0)) }
fn p1356(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1356::parse_log(l).map(|l| { let c9::logs::Evt1356 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1356(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1356::filter(con::<[Uint; 12]>(c, 0)) }
fn p1357(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1357::parse_log(l).map(|l| { let c9::logs::Evt1357 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1357(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1357::filter(con::<Vec<[Hash; 12]>>(c, 0)) }
fn p1358(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1358::parse_log(l).map(|l| { let c9::logs::Evt1358 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1358(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1358::filter(con::<bool>(c, 0)) }
fn p1359(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1359::parse_log(l).map(|l| { let c9::logs::Evt1359 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1359(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1359::filter(con::<[Uint; 13]>(c, 0)) }
fn p1360(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1360::parse_log(l).map(|l| { let c9::logs::Evt1360 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1360(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1360::filter(con::<Vec<[Hash; 13]>>(c, 0)) }
fn p1361(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1361::parse_log(l).map(|l| { let c9::logs::Evt1361 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1361(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1361::filter(con::<bool>(c, 0)) }
fn p1362(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1362::parse_log(l).map(|l| { let c9::logs::Evt1362 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1362(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1362::filter(con::<[Uint; 14]>(c, 0)) }
fn p1363(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1363::parse_log(l).map(|l| { let c9::logs::Evt1363 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1363(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1363::filter(con::<Vec<[Hash; 14]>>(c, 0)) }
fn p1364(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1364::parse_log(l).map(|l| { let c9::logs::Evt1364 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1364(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1364::filter(con::<bool>(c, 0)) }
fn p1365(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1365::parse_log(l).map(|l| { let c9::logs::Evt1365 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1365(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1365::filter(con::<[Uint; 15]>(c, 0)) }
fn p1366(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1366::parse_log(l).map(|l| { let c9::logs::Evt1366 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1366(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1366::filter(con::<Vec<[Hash; 15]>>(c, 0)) }
fn p1367(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1367::parse_log(l).map(|l| { let c9::logs::Evt1367 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1367(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1367::filter(con::<bool>(c, 0)) }
fn p1368(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1368::parse_log(l).map(|l| { let c9::logs::Evt1368 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1368(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1368::filter(con::<[Uint; 16]>(c, 0)) }
fn p1369(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1369::parse_log(l).map(|l| { let c9::logs::Evt1369 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1369(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1369::filter(con::<Vec<[Hash; 16]>>(c, 0)) }
fn p1370(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1370::parse_log(l).map(|l| { let c9::logs::Evt1370 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1370(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1370::filter(con::<bool>(c, 0)) }
fn p1371(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1371::parse_log(l).map(|l| { let c9::logs::Evt1371 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1371(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1371::filter(con::<[Uint; 17]>(c, 0)) }
fn p1372(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1372::parse_log(l).map(|l| { let c9::logs::Evt1372 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1372(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1372::filter(con::<Vec<[Hash; 17]>>(c, 0)) }
fn p1373(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1373::parse_log(l).map(|l| { let c9::logs::Evt1373 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1373(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1373::filter(con::<bool>(c, 0)) }
fn p1374(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1374::parse_log(l).map(|l| { let c9::logs::Evt1374 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1374(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1374::filter(con::<[Uint; 18]>(c, 0)) }
fn p1375(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1375::parse_log(l).map(|l| { let c9::logs::Evt1375 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1375(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1375::filter(con::<Vec<[Hash; 18]>>(c, 0)) }
fn p1376(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1376::parse_log(l).map(|l| { let c9::logs::Evt1376 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1376(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1376::filter(con::<bool>(c, 0)) }
fn p1377(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1377::parse_log(l).map(|l| { let c9::logs::Evt1377 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1377(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1377::filter(con::<[Uint; 19]>(c, 0)) }
fn p1378(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1378::parse_log(l).map(|l| { let c9::logs::Evt1378 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1378(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1378::filter(con::<Vec<[Hash; 19]>>(c, 0)) }
fn p1379(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1379::parse_log(l).map(|l| { let c9::logs::Evt1379 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1379(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1379::filter(con::<bool>(c, 0)) }
fn p1380(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1380::parse_log(l).map(|l| { let c9::logs::Evt1380 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1380(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1380::filter(con::<[Uint; 20]>(c, 0)) }
fn p1381(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1381::parse_log(l).map(|l| { let c9::logs::Evt1381 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1381(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1381::filter(con::<Vec<[Hash; 20]>>(c, 0)) }
fn p1382(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1382::parse_log(l).map(|l| { let c9::logs::Evt1382 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1382(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1382::filter(con::<bool>(c, 0)) }
fn p1383(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1383::parse_log(l).map(|l| { let c9::logs::Evt1383 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1383(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1383::filter(con::<[Uint; 21]>(c, 0)) }
fn p1384(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1384::parse_log(l).map(|l| { let c9::logs::Evt1384 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1384(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1384::filter(con::<Vec<[Hash; 21]>>(c, 0)) }
fn p1385(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1385::parse_log(l).map(|l| { let c9::logs::Evt1385 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1385(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1385::filter(con::<bool>(c, 0)) }
fn p1386(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1386::parse_log(l).map(|l| { let c9::logs::Evt1386 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1386(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1386::filter(con::<[Uint; 22]>(c, 0)) }
fn p1387(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1387::parse_log(l).map(|l| { let c9::logs::Evt1387 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1387(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1387::filter(con::<Vec<[Hash; 22]>>(c, 0)) }
fn p1388(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1388::parse_log(l).map(|l| { let c9::logs::Evt1388 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1388(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1388::filter(con::<bool>(c, 0)) }
fn p1389(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1389::parse_log(l).map(|l| { let c9::logs::Evt1389 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1389(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1389::filter(con::<[Uint; 23]>(c, 0)) }
fn p1390(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1390::parse_log(l).map(|l| { let c9::logs::Evt1390 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1390(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1390::filter(con::<Vec<[Hash; 23]>>(c, 0)) }
fn p1391(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1391::parse_log(l).map(|l| { let c9::logs::Evt1391 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1391(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1391::filter(con::<bool>(c, 0)) }
fn p1392(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1392::parse_log(l).map(|l| { let c9::logs::Evt1392 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1392(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1392::filter(con::<[Uint; 24]>(c, 0)) }
fn p1393(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1393::parse_log(l).map(|l| { let c9::logs::Evt1393 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1393(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1393::filter(con::<Vec<[Hash; 24]>>(c, 0)) }
fn p1394(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1394::parse_log(l).map(|l| { let c9::logs::Evt1394 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1394(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1394::filter(con::<bool>(c, 0)) }
fn p1395(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1395::parse_log(l).map(|l| { let c9::logs::Evt1395 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1395(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1395::filter(con::<[Uint; 25]>(c, 0)) }
fn p1396(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1396::parse_log(l).map(|l| { let c9::logs::Evt1396 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1396(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1396::filter(con::<Vec<[Hash; 25]>>(c, 0)) }
fn p1397(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1397::parse_log(l).map(|l| { let c9::logs::Evt1397 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1397(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1397::filter(con::<bool>(c, 0)) }
fn p1398(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1398::parse_log(l).map(|l| { let c9::logs::Evt1398 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1398(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1398::filter(con::<[Uint; 26]>(c, 0)) }
fn p1399(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1399::parse_log(l).map(|l| { let c9::logs::Evt1399 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1399(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1399::filter(con::<Vec<[Hash; 26]>>(c, 0)) }
fn p1400(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1400::parse_log(l).map(|l| { let c9::logs::Evt1400 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1400(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1400::filter(con::<bool>(c, 0)) }
fn p1401(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1401::parse_log(l).map(|l| { let c9::logs::Evt1401 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1401(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1401::filter(con::<[Uint; 27]>(c, 0)) }
fn p1402(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1402::parse_log(l).map(|l| { let c9::logs::Evt1402 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1402(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1402::filter(con::<Vec<[Hash; 27]>>(c, 0)) }
fn p1403(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1403::parse_log(l).map(|l| { let c9::logs::Evt1403 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1403(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1403::filter(con::<bool>(c, 0)) }
fn p1404(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1404::parse_log(l).map(|l| { let c9::logs::Evt1404 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1404(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1404::filter(con::<[Uint; 28]>(c, 0)) }
fn p1405(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1405::parse_log(l).map(|l| { let c9::logs::Evt1405 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1405(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1405::filter(con::<Vec<[Hash; 28]>>(c, 0)) }
fn p1406(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1406::parse_log(l).map(|l| { let c9::logs::Evt1406 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1406(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1406::filter(con::<bool>(c, 0)) }
fn p1407(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1407::parse_log(l).map(|l| { let c9::logs::Evt1407 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1407(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1407::filter(con::<[Uint; 29]>(c, 0)) }
fn p1408(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1408::parse_log(l).map(|l| { let c9::logs::Evt1408 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1408(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1408::filter(con::<Vec<[Hash; 29]>>(c, 0)) }
fn p1409(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1409::parse_log(l).map(|l| { let c9::logs::Evt1409 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1409(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1409::filter(con::<bool>(c, 0)) }
fn p1410(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1410::parse_log(l).map(|l| { let c9::logs::Evt1410 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1410(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1410::filter(con::<[Uint; 30]>(c, 0)) }
fn p1411(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1411::parse_log(l).map(|l| { let c9::logs::Evt1411 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1411(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1411::filter(con::<Vec<[Hash; 30]>>(c, 0)) }
fn p1412(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1412::parse_log(l).map(|l| { let c9::logs::Evt1412 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1412(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1412::filter(con::<bool>(c, 0)) }
fn p1413(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1413::parse_log(l).map(|l| { let c9::logs::Evt1413 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1413(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1413::filter(con::<[Uint; 31]>(c, 0)) }
fn p1414(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1414::parse_log(l).map(|l| { let c9::logs::Evt1414 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1414(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1414::filter(con::<Vec<[Hash; 31]>>(c, 0)) }
fn p1415(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1415::parse_log(l).map(|l| { let c9::logs::Evt1415 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1415(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1415::filter(con::<bool>(c, 0)) }
fn p1416(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1416::parse_log(l).map(|l| { let c9::logs::Evt1416 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1416(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1416::filter(con::<[Uint; 32]>(c, 0)) }
fn p1417(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1417::parse_log(l).map(|l| { let c9::logs::Evt1417 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1417(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1417::filter(con::<Vec<[Hash; 32]>>(c, 0)) }
fn p1418(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1418::parse_log(l).map(|l| { let c9::logs::Evt1418 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1418(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1418::filter(con::<bool>(c, 0)) }
fn p1419(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1419::parse_log(l).map(|l| { let c9::logs::Evt1419 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1419(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1419::filter(con::<[Uint; 33]>(c, 0)) }
fn p1420(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1420::parse_log(l).map(|l| { let c9::logs::Evt1420 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1420(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1420::filter(con::<Vec<[Hash; 33]>>(c, 0)) }
fn p1421(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1421::parse_log(l).map(|l| { let c9::logs::Evt1421 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1421(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1421::filter(con::<bool>(c, 0)) }
fn p1422(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1422::parse_log(l).map(|l| { let c9::logs::Evt1422 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1422(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1422::filter(con::<[Uint; 34]>(c, 0)) }
fn p1423(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1423::parse_log(l).map(|l| { let c9::logs::Evt1423 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1423(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1423::filter(con::<Vec<[Hash; 34]>>(c, 0)) }
fn p1424(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1424::parse_log(l).map(|l| { let c9::logs::Evt1424 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1424(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1424::filter(con::<bool>(c, 0)) }
fn p1425(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1425::parse_log(l).map(|l| { let c9::logs::Evt1425 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1425(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1425::filter(con::<[Uint; 48]>(c, 0)) }
fn p1426(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1426::parse_log(l).map(|l| { let c9::logs::Evt1426 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1426(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1426::filter(con::<Vec<[Hash; 48]>>(c, 0)) }
fn p1427(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1427::parse_log(l).map(|l| { let c9::logs::Evt1427 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1427(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1427::filter(con::<bool>(c, 0)) }
fn p1428(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1428::parse_log(l).map(|l| { let c9::logs::Evt1428 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1428(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1428::filter(con::<[Uint; 64]>(c, 0)) }
fn p1429(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1429::parse_log(l).map(|l| { let c9::logs::Evt1429 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1429(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1429::filter(con::<Vec<[Hash; 64]>>(c, 0)) }
fn p1430(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1430::parse_log(l).map(|l| { let c9::logs::Evt1430 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1430(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1430::filter(con::<bool>(c, 0)) }
fn p1431(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1431::parse_log(l).map(|l| { let c9::logs::Evt1431 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1431(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1431::filter(con::<[Uint; 65]>(c, 0)) }
fn p1432(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1432::parse_log(l).map(|l| { let c9::logs::Evt1432 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1432(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1432::filter(con::<Vec<[Hash; 65]>>(c, 0)) }
fn p1433(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1433::parse_log(l).map(|l| { let c9::logs::Evt1433 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1433(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1433::filter(con::<bool>(c, 0)) }
fn p1434(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1434::parse_log(l).map(|l| { let c9::logs::Evt1434 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1434(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1434::filter(con::<[Uint; 100]>(c, 0)) }
fn p1435(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1435::parse_log(l).map(|l| { let c9::logs::Evt1435 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), hash(f1)] }).map_err(|e| e.to_string()) }
fn f1435(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1435::filter(con::<Vec<[Hash; 100]>>(c, 0)) }
fn p1436(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1436::parse_log(l).map(|l| { let c9::logs::Evt1436 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1436(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1436::filter() }
fn p1437(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1437::parse_log(l).map(|l| { let c9::logs::Evt1437 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1437(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1437::filter(con::<Vec<Vec<Vec<Uint>>>>(c, 0)) }
fn p1438(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1438::parse_log(l).map(|l| { let c9::logs::Evt1438 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1438(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1438::filter() }
fn p1439(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1439::parse_log(l).map(|l| { let c9::logs::Evt1439 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1439(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1439::filter(con::<[Vec<Vec<Uint>>; 2]>(c, 0)) }
fn p1440(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1440::parse_log(l).map(|l| { let c9::logs::Evt1440 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1440(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1440::filter() }
fn p1441(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1441::parse_log(l).map(|l| { let c9::logs::Evt1441 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1441(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1441::filter(con::<Vec<[Vec<Uint>; 2]>>(c, 0)) }
fn p1442(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1442::parse_log(l).map(|l| { let c9::logs::Evt1442 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1442(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1442::filter() }
fn p1443(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1443::parse_log(l).map(|l| { let c9::logs::Evt1443 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1443(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1443::filter(con::<[[Vec<Uint>; 2]; 2]>(c, 0)) }
fn p1444(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1444::parse_log(l).map(|l| { let c9::logs::Evt1444 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1444(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1444::filter() }
fn p1445(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1445::parse_log(l).map(|l| { let c9::logs::Evt1445 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1445(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1445::filter(con::<Vec<Vec<[Uint; 2]>>>(c, 0)) }
fn p1446(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1446::parse_log(l).map(|l| { let c9::logs::Evt1446 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1446(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1446::filter() }
fn p1447(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1447::parse_log(l).map(|l| { let c9::logs::Evt1447 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1447(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1447::filter(con::<[Vec<[Uint; 2]>; 2]>(c, 0)) }
fn p1448(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1448::parse_log(l).map(|l| { let c9::logs::Evt1448 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1448(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1448::filter() }
fn p1449(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1449::parse_log(l).map(|l| { let c9::logs::Evt1449 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1449(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1449::filter(con::<Vec<[[Uint; 2]; 2]>>(c, 0)) }
fn p1450(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1450::parse_log(l).map(|l| { let c9::logs::Evt1450 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1450(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1450::filter() }
fn p1451(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1451::parse_log(l).map(|l| { let c9::logs::Evt1451 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1451(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1451::filter(con::<[[[Uint; 2]; 2]; 2]>(c, 0)) }
fn p1452(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1452::parse_log(l).map(|l| { let c9::logs::Evt1452 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1452(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1452::filter() }
fn p1453(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1453::parse_log(l).map(|l| { let c9::logs::Evt1453 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1453(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1453::filter(con::<Vec<Vec<Vec<String>>>>(c, 0)) }
fn p1454(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1454::parse_log(l).map(|l| { let c9::logs::Evt1454 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1454(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1454::filter() }
fn p1455(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1455::parse_log(l).map(|l| { let c9::logs::Evt1455 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1455(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1455::filter(con::<[Vec<Vec<String>>; 2]>(c, 0)) }
fn p1456(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1456::parse_log(l).map(|l| { let c9::logs::Evt1456 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1456(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1456::filter() }
fn p1457(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1457::parse_log(l).map(|l| { let c9::logs::Evt1457 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1457(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1457::filter(con::<Vec<[Vec<String>; 2]>>(c, 0)) }
fn p1458(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1458::parse_log(l).map(|l| { let c9::logs::Evt1458 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1458(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1458::filter() }
fn p1459(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1459::parse_log(l).map(|l| { let c9::logs::Evt1459 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1459(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1459::filter(con::<[[Vec<String>; 2]; 2]>(c, 0)) }
fn p1460(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1460::parse_log(l).map(|l| { let c9::logs::Evt1460 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1460(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1460::filter() }
fn p1461(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1461::parse_log(l).map(|l| { let c9::logs::Evt1461 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1461(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1461::filter(con::<Vec<Vec<[String; 2]>>>(c, 0)) }
fn p1462(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1462::parse_log(l).map(|l| { let c9::logs::Evt1462 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1462(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1462::filter() }
fn p1463(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1463::parse_log(l).map(|l| { let c9::logs::Evt1463 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1463(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1463::filter(con::<[Vec<[String; 2]>; 2]>(c, 0)) }
fn p1464(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1464::parse_log(l).map(|l| { let c9::logs::Evt1464 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1464(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1464::filter() }
fn p1465(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1465::parse_log(l).map(|l| { let c9::logs::Evt1465 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1465(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1465::filter(con::<Vec<[[String; 2]; 2]>>(c, 0)) }
fn p1466(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1466::parse_log(l).map(|l| { let c9::logs::Evt1466 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1466(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1466::filter() }
fn p1467(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1467::parse_log(l).map(|l| { let c9::logs::Evt1467 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1467(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1467::filter(con::<[[[String; 2]; 2]; 2]>(c, 0)) }
fn p1468(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1468::parse_log(l).map(|l| { let c9::logs::Evt1468 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1468(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1468::filter() }
fn p1469(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1469::parse_log(l).map(|l| { let c9::logs::Evt1469 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1469(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1469::filter(con::<Vec<Vec<Vec<[u8; 4]>>>>(c, 0)) }
fn p1470(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1470::parse_log(l).map(|l| { let c9::logs::Evt1470 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1470(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1470::filter() }
fn p1471(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1471::parse_log(l).map(|l| { let c9::logs::Evt1471 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1471(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1471::filter(con::<[Vec<Vec<[u8; 4]>>; 2]>(c, 0)) }
fn p1472(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1472::parse_log(l).map(|l| { let c9::logs::Evt1472 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1472(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1472::filter() }
fn p1473(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1473::parse_log(l).map(|l| { let c9::logs::Evt1473 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1473(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1473::filter(con::<Vec<[Vec<[u8; 4]>; 2]>>(c, 0)) }
fn p1474(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1474::parse_log(l).map(|l| { let c9::logs::Evt1474 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1474(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1474::filter() }
fn p1475(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1475::parse_log(l).map(|l| { let c9::logs::Evt1475 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1475(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1475::filter(con::<[[Vec<[u8; 4]>; 2]; 2]>(c, 0)) }
fn p1476(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1476::parse_log(l).map(|l| { let c9::logs::Evt1476 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1476(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1476::filter() }
fn p1477(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1477::parse_log(l).map(|l| { let c9::logs::Evt1477 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1477(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1477::filter(con::<Vec<Vec<[[u8; 4]; 2]>>>(c, 0)) }
fn p1478(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1478::parse_log(l).map(|l| { let c9::logs::Evt1478 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1478(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1478::filter() }
fn p1479(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1479::parse_log(l).map(|l| { let c9::logs::Evt1479 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1479(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1479::filter(con::<[Vec<[[u8; 4]; 2]>; 2]>(c, 0)) }
fn p1480(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1480::parse_log(l).map(|l| { let c9::logs::Evt1480 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1480(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1480::filter() }
fn p1481(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1481::parse_log(l).map(|l| { let c9::logs::Evt1481 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1481(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1481::filter(con::<Vec<[[[u8; 4]; 2]; 2]>>(c, 0)) }
fn p1482(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1482::parse_log(l).map(|l| { let c9::logs::Evt1482 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1482(_: &[Tp<Val>]) -> TopicFilter { c9::events::evt1482::filter() }
fn p1483(l: RawLog, t: &[Ty]) -> Out { c9::events::evt1483::parse_log(l).map(|l| { let c9::logs::Evt1483 { p0: f0, p1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1483(c: &[Tp<Val>]) -> TopicFilter { c9::events::evt1483::filter(con::<[[[[u8; 4]; 2]; 2]; 2]>(c, 0)) }
fn p1484(l: RawLog, t: &[Ty]) -> Out { c10::events::a::parse_log(l).map(|l| { let c10::logs::A { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1484(c: &[Tp<Val>]) -> TopicFilter { c10::events::a::filter(con::<Uint>(c, 0)) }
fn p1485(l: RawLog, t: &[Ty]) -> Out { c10::events::x1::parse_log(l).map(|l| { let c10::logs::X1 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1485(c: &[Tp<Val>]) -> TopicFilter { c10::events::x1::filter(con::<Uint>(c, 0)) }
fn p1486(l: RawLog, t: &[Ty]) -> Out { c10::events::transfer::parse_log(l).map(|l| { let c10::logs::Transfer { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1486(c: &[Tp<Val>]) -> TopicFilter { c10::events::transfer::filter(con::<Uint>(c, 0)) }
fn p1487(l: RawLog, t: &[Ty]) -> Out { c10::events::ownership_transferred::parse_log(l).map(|l| { let c10::logs::OwnershipTransferred { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1487(c: &[Tp<Val>]) -> TopicFilter { c10::events::ownership_transferred::filter(con::<Uint>(c, 0)) }
fn p1488(l: RawLog, t: &[Ty]) -> Out { c10::events::erc20::parse_log(l).map(|l| { let c10::logs::Erc20 { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1488(c: &[Tp<Val>]) -> TopicFilter { c10::events::erc20::filter(con::<Uint>(c, 0)) }
fn p1489(l: RawLog, t: &[Ty]) -> Out { c10::events::vec::parse_log(l).map(|l| { let c10::logs::Vec { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1489(c: &[Tp<Val>]) -> TopicFilter { c10::events::vec::filter(con::<Uint>(c, 0)) }
fn p1490(l: RawLog, t: &[Ty]) -> Out { c10::events::option::parse_log(l).map(|l| { let c10::logs::Option { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1490(c: &[Tp<Val>]) -> TopicFilter { c10::events::option::filter(con::<Uint>(c, 0)) }
fn p1491(l: RawLog, t: &[Ty]) -> Out { c10::events::result::parse_log(l).map(|l| { let c10::logs::Result { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1491(c: &[Tp<Val>]) -> TopicFilter { c10::events::result::filter(con::<Uint>(c, 0)) }
fn p1492(l: RawLog, t: &[Ty]) -> Out { c10::events::filter::parse_log(l).map(|l| { let c10::logs::Filter { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1492(c: &[Tp<Val>]) -> TopicFilter { c10::events::filter::filter(con::<Uint>(c, 0)) }
fn p1493(l: RawLog, t: &[Ty]) -> Out { c10::events::event_x::parse_log(l).map(|l| { let c10::logs::EventX { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1493(c: &[Tp<Val>]) -> TopicFilter { c10::events::event_x::filter(con::<Uint>(c, 0)) }
fn p1494(l: RawLog, t: &[Ty]) -> Out { c10::events::raw::parse_log(l).map(|l| { let c10::logs::Raw { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1494(c: &[Tp<Val>]) -> TopicFilter { c10::events::raw::filter(con::<Uint>(c, 0)) }
fn p1495(l: RawLog, t: &[Ty]) -> Out { c10::events::topic::parse_log(l).map(|l| { let c10::logs::Topic { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1495(c: &[Tp<Val>]) -> TopicFilter { c10::events::topic::filter(con::<Uint>(c, 0)) }
fn p1496(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1496::parse_log(l).map(|l| { let c10::logs::Evt1496 { t0: f0, u0: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1496(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1496::filter(con::<Uint>(c, 0)) }
fn p1497(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1497::parse_log(l).map(|l| { let c10::logs::Evt1497 { t0: f0, u0: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1497(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1497::filter(con::<[u8; 4]>(c, 0)) }
fn p1498(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1498::parse_log(l).map(|l| { let c10::logs::Evt1498 { t0: f0, u0: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1498(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1498::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1499(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1499::parse_log(l).map(|l| { let c10::logs::Evt1499 { inner: f0, iter: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1499(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1499::filter(con::<Uint>(c, 0)) }
fn p1500(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1500::parse_log(l).map(|l| { let c10::logs::Evt1500 { inner: f0, iter: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1500(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1500::filter(con::<[u8; 4]>(c, 0)) }
fn p1501(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1501::parse_log(l).map(|l| { let c10::logs::Evt1501 { inner: f0, iter: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1501(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1501::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1502(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1502::parse_log(l).map(|l| { let c10::logs::Evt1502 { i: f0, v: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1502(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1502::filter(con::<Uint>(c, 0)) }
fn p1503(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1503::parse_log(l).map(|l| { let c10::logs::Evt1503 { i: f0, v: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1503(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1503::filter(con::<[u8; 4]>(c, 0)) }
fn p1504(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1504::parse_log(l).map(|l| { let c10::logs::Evt1504 { i: f0, v: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1504(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1504::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1505(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1505::parse_log(l).map(|l| { let c10::logs::Evt1505 { a_b: f0, a_c: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1505(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1505::filter(con::<Uint>(c, 0)) }
fn p1506(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1506::parse_log(l).map(|l| { let c10::logs::Evt1506 { a_b: f0, a_c: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1506(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1506::filter(con::<[u8; 4]>(c, 0)) }
fn p1507(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1507::parse_log(l).map(|l| { let c10::logs::Evt1507 { a_b: f0, a_c: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1507(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1507::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1508(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1508::parse_log(l).map(|l| { let c10::logs::Evt1508 { x: f0, y: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1508(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1508::filter(con::<Uint>(c, 0)) }
fn p1509(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1509::parse_log(l).map(|l| { let c10::logs::Evt1509 { x: f0, y: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1509(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1509::filter(con::<[u8; 4]>(c, 0)) }
fn p1510(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1510::parse_log(l).map(|l| { let c10::logs::Evt1510 { x: f0, y: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1510(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1510::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1511(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1511::parse_log(l).map(|l| { let c10::logs::Evt1511 { topic0: f0, topic1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1511(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1511::filter(con::<Uint>(c, 0)) }
fn p1512(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1512::parse_log(l).map(|l| { let c10::logs::Evt1512 { topic0: f0, topic1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1512(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1512::filter(con::<[u8; 4]>(c, 0)) }
fn p1513(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1513::parse_log(l).map(|l| { let c10::logs::Evt1513 { topic0: f0, topic1: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1513(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1513::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1514(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1514::parse_log(l).map(|l| { let c10::logs::Evt1514 { all: f0, caps: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1514(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1514::filter(con::<Uint>(c, 0)) }
fn p1515(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1515::parse_log(l).map(|l| { let c10::logs::Evt1515 { all: f0, caps: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1515(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1515::filter(con::<[u8; 4]>(c, 0)) }
fn p1516(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1516::parse_log(l).map(|l| { let c10::logs::Evt1516 { all: f0, caps: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1516(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1516::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1517(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1517::parse_log(l).map(|l| { let c10::logs::Evt1517 { x9: f0, x10: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1517(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1517::filter(con::<Uint>(c, 0)) }
fn p1518(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1518::parse_log(l).map(|l| { let c10::logs::Evt1518 { x9: f0, x10: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1518(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1518::filter(con::<[u8; 4]>(c, 0)) }
fn p1519(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1519::parse_log(l).map(|l| { let c10::logs::Evt1519 { x9: f0, x10: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1519(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1519::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1520(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1520::parse_log(l).map(|l| { let c10::logs::Evt1520 { name: f0, value: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1520(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1520::filter(con::<Uint>(c, 0)) }
fn p1521(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1521::parse_log(l).map(|l| { let c10::logs::Evt1521 { name: f0, value: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1521(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1521::filter(con::<[u8; 4]>(c, 0)) }
fn p1522(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1522::parse_log(l).map(|l| { let c10::logs::Evt1522 { name: f0, value: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1522(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1522::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1523(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1523::parse_log(l).map(|l| { let c10::logs::Evt1523 { ethabi: f0, log: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1523(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1523::filter(con::<Uint>(c, 0)) }
fn p1524(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1524::parse_log(l).map(|l| { let c10::logs::Evt1524 { ethabi: f0, log: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1524(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1524::filter(con::<[u8; 4]>(c, 0)) }
fn p1525(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1525::parse_log(l).map(|l| { let c10::logs::Evt1525 { ethabi: f0, log: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1525(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1525::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1526(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1526::parse_log(l).map(|l| { let c10::logs::Evt1526 { out: f0, tokens: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1526(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1526::filter(con::<Uint>(c, 0)) }
fn p1527(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1527::parse_log(l).map(|l| { let c10::logs::Evt1527 { out: f0, tokens: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1527(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1527::filter(con::<[u8; 4]>(c, 0)) }
fn p1528(l: RawLog, t: &[Ty]) -> Out { c10::events::evt1528::parse_log(l).map(|l| { let c10::logs::Evt1528 { out: f0, tokens: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1528(c: &[Tp<Val>]) -> TopicFilter { c10::events::evt1528::filter(con::<Vec<Uint>>(c, 0), con::<[u8; 4]>(c, 1)) }
fn p1529(l: RawLog, _: &[Ty]) -> Out { c11::events::evt1529::parse_log(l).map(|l| { let c11::logs::Evt1529 {  } = l; vec![] }).map_err(|e| e.to_string()) }
fn f1529(_: &[Tp<Val>]) -> TopicFilter { c11::events::evt1529::filter() }
fn p1530(l: RawLog, _: &[Ty]) -> Out { c11::events::evt1530::parse_log(l).map(|l| { let c11::logs::Evt1530 {  } = l; vec![] }).map_err(|e| e.to_string()) }
fn f1530(_: &[Tp<Val>]) -> TopicFilter { c11::events::evt1530::filter() }
fn p1531(l: RawLog, t: &[Ty]) -> Out { c11::events::evt1531::parse_log(l).map(|l| { let c11::logs::Evt1531 { topic0: f0, param1: f1, topic2: f2, param3: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1531(c: &[Tp<Val>]) -> TopicFilter { c11::events::evt1531::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p1532(l: RawLog, t: &[Ty]) -> Out { c11::events::evt1532::parse_log(l).map(|l| { let c11::logs::Evt1532 { param3: f0, topic1: f1, topic9: f2, x: f3 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2]), f3.to_val(&t[3])] }).map_err(|e| e.to_string()) }
fn f1532(c: &[Tp<Val>]) -> TopicFilter { c11::events::evt1532::filter(con::<Uint>(c, 0), con::<Uint>(c, 1)) }
fn p1533(l: RawLog, t: &[Ty]) -> Out { c11::events::transfer::parse_log(l).map(|l| { let c11::logs::Transfer { from: f0, to_address: f1, value: f2 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1]), f2.to_val(&t[2])] }).map_err(|e| e.to_string()) }
fn f1533(c: &[Tp<Val>]) -> TopicFilter { c11::events::transfer::filter(con::<Address>(c, 0), con::<Address>(c, 1)) }
fn p1534(l: RawLog, t: &[Ty]) -> Out { c11::events::name_changed::parse_log(l).map(|l| { let c11::logs::NameChanged { raw: f0, log: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1534(c: &[Tp<Val>]) -> TopicFilter { c11::events::name_changed::filter(con::<String>(c, 0)) }
fn p1535(l: RawLog, t: &[Ty]) -> Out { c11::events::hash_set::parse_log(l).map(|l| { let c11::logs::HashSet { result: f0, e: f1 } = l; vec![hash(f0), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1535(c: &[Tp<Val>]) -> TopicFilter { c11::events::hash_set::filter(con::<Vec<u8>>(c, 0), con::<Hash>(c, 1)) }
fn p1536(l: RawLog, t: &[Ty]) -> Out { c11::events::lower_anonymous::parse_log(l).map(|l| { let c11::logs::LowerAnonymous { p0: f0 } = l; vec![f0.to_val(&t[0])] }).map_err(|e| e.to_string()) }
fn f1536(c: &[Tp<Val>]) -> TopicFilter { c11::events::lower_anonymous::filter(con::<Uint>(c, 0)) }
fn p1537(l: RawLog, t: &[Ty]) -> Out { c12::events::transfer::parse_log(l).map(|l| { let c12::logs::Transfer { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1537(c: &[Tp<Val>]) -> TopicFilter { c12::events::transfer::filter(con::<Uint>(c, 0)) }
fn p1538(l: RawLog, t: &[Ty]) -> Out { c12::events::snake_case::parse_log(l).map(|l| { let c12::logs::SnakeCase { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1538(c: &[Tp<Val>]) -> TopicFilter { c12::events::snake_case::filter(con::<Uint>(c, 0)) }
fn p1539(l: RawLog, t: &[Ty]) -> Out { c12::events::nft_minted::parse_log(l).map(|l| { let c12::logs::NftMinted { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1539(c: &[Tp<Val>]) -> TopicFilter { c12::events::nft_minted::filter(con::<Uint>(c, 0)) }
fn p1540(l: RawLog, t: &[Ty]) -> Out { c12::events::log_note::parse_log(l).map(|l| { let c12::logs::LogNote { p0: f0, p1: f1 } = l; vec![f0.to_val(&t[0]), f1.to_val(&t[1])] }).map_err(|e| e.to_string()) }
fn f1540(c: &[Tp<Val>]) -> TopicFilter { c12::events::log_note::filter(con::<Uint>(c, 0)) }

pub const EVS: &[EvCase] = &[
    EvCase { contract: 0, name: "Evt0", camel: "Evt0", parse: p0, filter: f0, wildcard: c0::events::evt0::wildcard_filter, event: c0::events::evt0::event },
    EvCase { contract: 0, name: "Evt1", camel: "Evt1", parse: p1, filter: f1, wildcard: c0::events::evt1::wildcard_filter, event: c0::events::evt1::event },
    EvCase { contract: 0, name: "Evt2", camel: "Evt2", parse: p2, filter: f2, wildcard: c0::events::evt2::wildcard_filter, event: c0::events::evt2::event },
    EvCase { contract: 0, name: "Evt3", camel: "Evt3", parse: p3, filter: f3, wildcard: c0::events::evt3::wildcard_filter, event: c0::events::evt3::event },
    EvCase { contract: 0, name: "Evt4", camel: "Evt4", parse: p4, filter: f4, wildcard: c0::events::evt4::wildcard_filter, event: c0::events::evt4::event },
    EvCase { contract: 0, name: "Evt5", camel: "Evt5", parse: p5, filter: f5, wildcard: c0::events::evt5::wildcard_filter, event: c0::events::evt5::event },
    EvCase { contract: 0, name: "Evt6", camel: "Evt6", parse: p6, filter: f6, wildcard: c0::events::evt6::wildcard_filter, event: c0::events::evt6::event },
    EvCase { contract: 0, name: "Evt7", camel: "Evt7", parse: p7, filter: f7, wildcard: c0::events::evt7::wildcard_filter, event: c0::events::evt7::event },
    EvCase { contract: 0, name: "Evt8", camel: "Evt8", parse: p8, filter: f8, wildcard: c0::events::evt8::wildcard_filter, event: c0::events::evt8::event },
    EvCase { contract: 0, name: "Evt9", camel: "Evt9", parse: p9, filter: f9, wildcard: c0::events::evt9::wildcard_filter, event: c0::events::evt9::event },
    EvCase { contract: 0, name: "Evt10", camel: "Evt10", parse: p10, filter: f10, wildcard: c0::events::evt10::wildcard_filter, event: c0::events::evt10::event },
    EvCase { contract: 0, name: "Evt11", camel: "Evt11", parse: p11, filter: f11, wildcard: c0::events::evt11::wildcard_filter, event: c0::events::evt11::event },
    EvCase { contract: 0, name: "Evt12", camel: "Evt12", parse: p12, filter: f12, wildcard: c0::events::evt12::wildcard_filter, event: c0::events::evt12::event },
    EvCase { contract: 0, name: "Evt13", camel: "Evt13", parse: p13, filter: f13, wildcard: c0::events::evt13::wildcard_filter, event: c0::events::evt13::event },
    EvCase { contract: 0, name: "Evt14", camel: "Evt14", parse: p14, filter: f14, wildcard: c0::events::evt14::wildcard_filter, event: c0::events::evt14::event },
    EvCase { contract: 0, name: "Evt15", camel: "Evt15", parse: p15, filter: f15, wildcard: c0::events::evt15::wildcard_filter, event: c0::events::evt15::event },
    EvCase { contract: 0, name: "Evt16", camel: "Evt16", parse: p16, filter: f16, wildcard: c0::events::evt16::wildcard_filter, event: c0::events::evt16::event },
    EvCase { contract: 0, name: "Evt17", camel: "Evt17", parse: p17, filter: f17, wildcard: c0::events::evt17::wildcard_filter, event: c0::events::evt17::event },
    EvCase { contract: 0, name: "Evt18", camel: "Evt18", parse: p18, filter: f18, wildcard: c0::events::evt18::wildcard_filter, event: c0::events::evt18::event },
    EvCase { contract: 0, name: "Evt19", camel: "Evt19", parse: p19, filter: f19, wildcard: c0::events::evt19::wildcard_filter, event: c0::events::evt19::event },
    EvCase { contract: 0, name: "Evt20", camel: "Evt20", parse: p20, filter: f20, wildcard: c0::events::evt20::wildcard_filter, event: c0::events::evt20::event },
    EvCase { contract: 0, name: "Evt21", camel: "Evt21", parse: p21, filter: f21, wildcard: c0::events::evt21::wildcard_filter, event: c0::events::evt21::event },
    EvCase { contract: 0, name: "Evt22", camel: "Evt22", parse: p22, filter: f22, wildcard: c0::events::evt22::wildcard_filter, event: c0::events::evt22::event },
    EvCase { contract: 0, name: "Evt23", camel: "Evt23", parse: p23, filter: f23, wildcard: c0::events::evt23::wildcard_filter, event: c0::events::evt23::event },
    EvCase { contract: 0, name: "Evt24", camel: "Evt24", parse: p24, filter: f24, wildcard: c0::events::evt24::wildcard_filter, event: c0::events::evt24::event },
    EvCase { contract: 0, name: "Evt25", camel: "Evt25", parse: p25, filter: f25, wildcard: c0::events::evt25::wildcard_filter, event: c0::events::evt25::event },
    EvCase { contract: 0, name: "Evt26", camel: "Evt26", parse: p26, filter: f26, wildcard: c0::events::evt26::wildcard_filter, event: c0::events::evt26::event },
    EvCase { contract: 0, name: "Evt27", camel: "Evt27", parse: p27, filter: f27, wildcard: c0::events::evt27::wildcard_filter, event: c0::events::evt27::event },
    EvCase { contract: 0, name: "Evt28", camel: "Evt28", parse: p28, filter: f28, wildcard: c0::events::evt28::wildcard_filter, event: c0::events::evt28::event },
    EvCase { contract: 0, name: "Evt29", camel: "Evt29", parse: p29, filter: f29, wildcard: c0::events::evt29::wildcard_filter, event: c0::events::evt29::event },
    EvCase { contract: 0, name: "Evt30", camel: "Evt30", parse: p30, filter: f30, wildcard: c0::events::evt30::wildcard_filter, event: c0::events::evt30::event },
    EvCase { contract: 0, name: "Evt31", camel: "Evt31", parse: p31, filter: f31, wildcard: c0::events::evt31::wildcard_filter, event: c0::events::evt31::event },
    EvCase { contract: 0, name: "Evt32", camel: "Evt32", parse: p32, filter: f32, wildcard: c0::events::evt32::wildcard_filter, event: c0::events::evt32::event },
    EvCase { contract: 0, name: "Evt33", camel: "Evt33", parse: p33, filter: f33, wildcard: c0::events::evt33::wildcard_filter, event: c0::events::evt33::event },
    EvCase { contract: 0, name: "Evt34", camel: "Evt34", parse: p34, filter: f34, wildcard: c0::events::evt34::wildcard_filter, event: c0::events::evt34::event },
    EvCase { contract: 0, name: "Evt35", camel: "Evt35", parse: p35, filter: f35, wildcard: c0::events::evt35::wildcard_filter, event: c0::events::evt35::event },
    EvCase { contract: 0, name: "Evt36", camel: "Evt36", parse: p36, filter: f36, wildcard: c0::events::evt36::wildcard_filter, event: c0::events::evt36::event },
    EvCase { contract: 0, name: "Evt37", camel: "Evt37", parse: p37, filter: f37, wildcard: c0::events::evt37::wildcard_filter, event: c0::events::evt37::event },
    EvCase { contract: 0, name: "Evt38", camel: "Evt38", parse: p38, filter: f38, wildcard: c0::events::evt38::wildcard_filter, event: c0::events::evt38::event },
    EvCase { contract: 0, name: "Evt39", camel: "Evt39", parse: p39, filter: f39, wildcard: c0::events::evt39::wildcard_filter, event: c0::events::evt39::event },
    EvCase { contract: 0, name: "Evt40", camel: "Evt40", parse: p40, filter: f40, wildcard: c0::events::evt40::wildcard_filter, event: c0::events::evt40::event },
    EvCase { contract: 0, name: "Evt41", camel: "Evt41", parse: p41, filter: f41, wildcard: c0::events::evt41::wildcard_filter, event: c0::events::evt41::event },
    EvCase { contract: 0, name: "Evt42", camel: "Evt42", parse: p42, filter: f42, wildcard: c0::events::evt42::wildcard_filter, event: c0::events::evt42::event },
    EvCase { contract: 0, name: "Evt43", camel: "Evt43", parse: p43, filter: f43, wildcard: c0::events::evt43::wildcard_filter, event: c0::events::evt43::event },
    EvCase { contract: 0, name: "Evt44", camel: "Evt44", parse: p44, filter: f44, wildcard: c0::events::evt44::wildcard_filter, event: c0::events::evt44::event },
    EvCase { contract: 0, name: "Evt45", camel: "Evt45", parse: p45, filter: f45, wildcard: c0::events::evt45::wildcard_filter, event: c0::events::evt45::event },
    EvCase { contract: 0, name: "Evt46", camel: "Evt46", parse: p46, filter: f46, wildcard: c0::events::evt46::wildcard_filter, event: c0::events::evt46::event },
    EvCase { contract: 0, name: "Evt47", camel: "Evt47", parse: p47, filter: f47, wildcard: c0::events::evt47::wildcard_filter, event: c0::events::evt47::event },
    EvCase { contract: 0, name: "Evt48", camel: "Evt48", parse: p48, filter: f48, wildcard: c0::events::evt48::wildcard_filter, event: c0::events::evt48::event },
    EvCase { contract: 0, name: "Evt49", camel: "Evt49", parse: p49, filter: f49, wildcard: c0::events::evt49::wildcard_filter, event: c0::events::evt49::event },
    EvCase { contract: 0, name: "Evt50", camel: "Evt50", parse: p50, filter: f50, wildcard: c0::events::evt50::wildcard_filter, event: c0::events::evt50::event },
    EvCase { contract: 0, name: "Evt51", camel: "Evt51", parse: p51, filter: f51, wildcard: c0::events::evt51::wildcard_filter, event: c0::events::evt51::event },
    EvCase { contract: 0, name: "Evt52", camel: "Evt52", parse: p52, filter: f52, wildcard: c0::events::evt52::wildcard_filter, event: c0::events::evt52::event },
    EvCase { contract: 0, name: "Evt53", camel: "Evt53", parse: p53, filter: f53, wildcard: c0::events::evt53::wildcard_filter, event: c0::events::evt53::event },
    EvCase { contract: 0, name: "Evt54", camel: "Evt54", parse: p54, filter: f54, wildcard: c0::events::evt54::wildcard_filter, event: c0::events::evt54::event },
    EvCase { contract: 0, name: "Evt55", camel: "Evt55", parse: p55, filter: f55, wildcard: c0::events::evt55::wildcard_filter, event: c0::events::evt55::event },
    EvCase { contract: 0, name: "Evt56", camel: "Evt56", parse: p56, filter: f56, wildcard: c0::events::evt56::wildcard_filter, event: c0::events::evt56::event },
    EvCase { contract: 0, name: "Evt57", camel: "Evt57", parse: p57, filter: f57, wildcard: c0::events::evt57::wildcard_filter, event: c0::events::evt57::event },
    EvCase { contract: 0, name: "Evt58", camel: "Evt58", parse: p58, filter: f58, wildcard: c0::events::evt58::wildcard_filter, event: c0::events::evt58::event },
    EvCase { contract: 0, name: "Evt59", camel: "Evt59", parse: p59, filter: f59, wildcard: c0::events::evt59::wildcard_filter, event: c0::events::evt59::event },
    EvCase { contract: 0, name: "Evt60", camel: "Evt60", parse: p60, filter: f60, wildcard: c0::events::evt60::wildcard_filter, event: c0::events::evt60::event },
    EvCase { contract: 0, name: "Evt61", camel: "Evt61", parse: p61, filter: f61, wildcard: c0::events::evt61::wildcard_filter, event: c0::events::evt61::event },
    EvCase { contract: 0, name: "Evt62", camel: "Evt62", parse: p62, filter: f62, wildcard: c0::events::evt62::wildcard_filter, event: c0::events::evt62::event },
    EvCase { contract: 0, name: "Evt63", camel: "Evt63", parse: p63, filter: f63, wildcard: c0::events::evt63::wildcard_filter, event: c0::events::evt63::event },
    EvCase { contract: 0, name: "Evt64", camel: "Evt64", parse: p64, filter: f64, wildcard: c0::events::evt64::wildcard_filter, event: c0::events::evt64::event },
    EvCase { contract: 0, name: "Evt65", camel: "Evt65", parse: p65, filter: f65, wildcard: c0::events::evt65::wildcard_filter, event: c0::events::evt65::event },
    EvCase { contract: 0, name: "Evt66", camel: "Evt66", parse: p66, filter: f66, wildcard: c0::events::evt66::wildcard_filter, event: c0::events::evt66::event },
    EvCase { contract: 0, name: "Evt67", camel: "Evt67", parse: p67, filter: f67, wildcard: c0::events::evt67::wildcard_filter, event: c0::events::evt67::event },
    EvCase { contract: 0, name: "Evt68", camel: "Evt68", parse: p68, filter: f68, wildcard: c0::events::evt68::wildcard_filter, event: c0::events::evt68::event },
    EvCase { contract: 0, name: "Evt69", camel: "Evt69", parse: p69, filter: f69, wildcard: c0::events::evt69::wildcard_filter, event: c0::events::evt69::event },
    EvCase { contract: 0, name: "Evt70", camel: "Evt70", parse: p70, filter: f70, wildcard: c0::events::evt70::wildcard_filter, event: c0::events::evt70::event },
    EvCase { contract: 0, name: "Evt71", camel: "Evt71", parse: p71, filter: f71, wildcard: c0::events::evt71::wildcard_filter, event: c0::events::evt71::event },
    EvCase { contract: 0, name: "Evt72", camel: "Evt72", parse: p72, filter: f72, wildcard: c0::events::evt72::wildcard_filter, event: c0::events::evt72::event },
    EvCase { contract: 0, name: "Evt73", camel: "Evt73", parse: p73, filter: f73, wildcard: c0::events::evt73::wildcard_filter, event: c0::events::evt73::event },
    EvCase { contract: 0, name: "Evt74", camel: "Evt74", parse: p74, filter: f74, wildcard: c0::events::evt74::wildcard_filter, event: c0::events::evt74::event },
    EvCase { contract: 0, name: "Evt75", camel: "Evt75", parse: p75, filter: f75, wildcard: c0::events::evt75::wildcard_filter, event: c0::events::evt75::event },
    EvCase { contract: 0, name: "Evt76", camel: "Evt76", parse: p76, filter: f76, wildcard: c0::events::evt76::wildcard_filter, event: c0::events::evt76::event },
    EvCase { contract: 0, name: "Evt77", camel: "Evt77", parse: p77, filter: f77, wildcard: c0::events::evt77::wildcard_filter, event: c0::events::evt77::event },
    EvCase { contract: 0, name: "Evt78", camel: "Evt78", parse: p78, filter: f78, wildcard: c0::events::evt78::wildcard_filter, event: c0::events::evt78::event },
    EvCase { contract: 0, name: "Evt79", camel: "Evt79", parse: p79, filter: f79, wildcard: c0::events::evt79::wildcard_filter, event: c0::events::evt79::event },
    EvCase { contract: 0, name: "Evt80", camel: "Evt80", parse: p80, filter: f80, wildcard: c0::events::evt80::wildcard_filter, event: c0::events::evt80::event },
    EvCase { contract: 0, name: "Evt81", camel: "Evt81", parse: p81, filter: f81, wildcard: c0::events::evt81::wildcard_filter, event: c0::events::evt81::event },
    EvCase { contract: 0, name: "Evt82", camel: "Evt82", parse: p82, filter: f82, wildcard: c0::events::evt82::wildcard_filter, event: c0::events::evt82::event },
    EvCase { contract: 0, name: "Evt83", camel: "Evt83", parse: p83, filter: f83, wildcard: c0::events::evt83::wildcard_filter, event: c0::events::evt83::event },
    EvCase { contract: 0, name: "Evt84", camel: "Evt84", parse: p84, filter: f84, wildcard: c0::events::evt84::wildcard_filter, event: c0::events::evt84::event },
    EvCase { contract: 0, name: "Evt85", camel: "Evt85", parse: p85, filter: f85, wildcard: c0::events::evt85::wildcard_filter, event: c0::events::evt85::event },
    EvCase { contract: 0, name: "Evt86", camel: "Evt86", parse: p86, filter: f86, wildcard: c0::events::evt86::wildcard_filter, event: c0::events::evt86::event },
    EvCase { contract: 0, name: "Evt87", camel: "Evt87", parse: p87, filter: f87, wildcard: c0::events::evt87::wildcard_filter, event: c0::events::evt87::event },
    EvCase { contract: 0, name: "Evt88", camel: "Evt88", parse: p88, filter: f88, wildcard: c0::events::evt88::wildcard_filter, event: c0::events::evt88::event },
    EvCase { contract: 0, name: "Evt89", camel: "Evt89", parse: p89, filter: f89, wildcard: c0::events::evt89::wildcard_filter, event: c0::events::evt89::event },
    EvCase { contract: 0, name: "Evt90", camel: "Evt90", parse: p90, filter: f90, wildcard: c0::events::evt90::wildcard_filter, event: c0::events::evt90::event },
    EvCase { contract: 0, name: "Evt91", camel: "Evt91", parse: p91, filter: f91, wildcard: c0::events::evt91::wildcard_filter, event: c0::events::evt91::event },
    EvCase { contract: 0, name: "Evt92", camel: "Evt92", parse: p92, filter: f92, wildcard: c0::events::evt92::wildcard_filter, event: c0::events::evt92::event },
    EvCase { contract: 0, name: "Evt93", camel: "Evt93", parse: p93, filter: f93, wildcard: c0::events::evt93::wildcard_filter, event: c0::events::evt93::event },
    EvCase { contract: 0, name: "Evt94", camel: "Evt94", parse: p94, filter: f94, wildcard: c0::events::evt94::wildcard_filter, event: c0::events::evt94::event },
    EvCase { contract: 0, name: "Evt95", camel: "Evt95", parse: p95, filter: f95, wildcard: c0::events::evt95::wildcard_filter, event: c0::events::evt95::event },
    EvCase { contract: 0, name: "Evt96", camel: "Evt96", parse: p96, filter: f96, wildcard: c0::events::evt96::wildcard_filter, event: c0::events::evt96::event },
    EvCase { contract: 0, name: "Evt97", camel: "Evt97", parse: p97, filter: f97, wildcard: c0::events::evt97::wildcard_filter, event: c0::events::evt97::event },
    EvCase { contract: 0, name: "Evt98", camel: "Evt98", parse: p98, filter: f98, wildcard: c0::events::evt98::wildcard_filter, event: c0::events::evt98::event },
    EvCase { contract: 0, name: "Evt99", camel: "Evt99", parse: p99, filter: f99, wildcard: c0::events::evt99::wildcard_filter, event: c0::events::evt99::event },
    EvCase { contract: 0, name: "Evt100", camel: "Evt100", parse: p100, filter: f100, wildcard: c0::events::evt100::wildcard_filter, event: c0::events::evt100::event },
    EvCase { contract: 0, name: "Evt101", camel: "Evt101", parse: p101, filter: f101, wildcard: c0::events::evt101::wildcard_filter, event: c0::events::evt101::event },
    EvCase { contract: 0, name: "Evt102", camel: "Evt102", parse: p102, filter: f102, wildcard: c0::events::evt102::wildcard_filter, event: c0::events::evt102::event },
    EvCase { contract: 0, name: "Evt103", camel: "Evt103", parse: p103, filter: f103, wildcard: c0::events::evt103::wildcard_filter, event: c0::events::evt103::event },
    EvCase { contract: 0, name: "Evt104", camel: "Evt104", parse: p104, filter: f104, wildcard: c0::events::evt104::wildcard_filter, event: c0::events::evt104::event },
    EvCase { contract: 0, name: "Evt105", camel: "Evt105", parse: p105, filter: f105, wildcard: c0::events::evt105::wildcard_filter, event: c0::events::evt105::event },
    EvCase { contract: 0, name: "Evt106", camel: "Evt106", parse: p106, filter: f106, wildcard: c0::events::evt106::wildcard_filter, event: c0::events::evt106::event },
    EvCase { contract: 0, name: "Evt107", camel: "Evt107", parse: p107, filter: f107, wildcard: c0::events::evt107::wildcard_filter, event: c0::events::evt107::event },
    EvCase { contract: 0, name: "Evt108", camel: "Evt108", parse: p108, filter: f108, wildcard: c0::events::evt108::wildcard_filter, event: c0::events::evt108::event },
    EvCase { contract: 0, name: "Evt109", camel: "Evt109", parse: p109, filter: f109, wildcard: c0::events::evt109::wildcard_filter, event: c0::events::evt109::event },
    EvCase { contract: 0, name: "Evt110", camel: "Evt110", parse: p110, filter: f110, wildcard: c0::events::evt110::wildcard_filter, event: c0::events::evt110::event },
    EvCase { contract: 0, name: "Evt111", camel: "Evt111", parse: p111, filter: f111, wildcard: c0::events::evt111::wildcard_filter, event: c0::events::evt111::event },
    EvCase { contract: 0, name: "Evt112", camel: "Evt112", parse: p112, filter: f112, wildcard: c0::events::evt112::wildcard_filter, event: c0::events::evt112::event },
    EvCase { contract: 0, name: "Evt113", camel: "Evt113", parse: p113, filter: f113, wildcard: c0::events::evt113::wildcard_filter, event: c0::events::evt113::event },
    EvCase { contract: 0, name: "Evt114", camel: "Evt114", parse: p114, filter: f114, wildcard: c0::events::evt114::wildcard_filter, event: c0::events::evt114::event },
    EvCase { contract: 0, name: "Evt115", camel: "Evt115", parse: p115, filter: f115, wildcard: c0::events::evt115::wildcard_filter, event: c0::events::evt115::event },
    EvCase { contract: 0, name: "Evt116", camel: "Evt116", parse: p116, filter: f116, wildcard: c0::events::evt116::wildcard_filter, event: c0::events::evt116::event },
    EvCase { contract: 0, name: "Evt117", camel: "Evt117", parse: p117, filter: f117, wildcard: c0::events::evt117::wildcard_filter, event: c0::events::evt117::event },
    EvCase { contract: 0, name: "Evt118", camel: "Evt118", parse: p118, filter: f118, wildcard: c0::events::evt118::wildcard_filter, event: c0::events::evt118::event },
    EvCase { contract: 0, name: "Evt119", camel: "Evt119", parse: p119, filter: f119, wildcard: c0::events::evt119::wildcard_filter, event: c0::events::evt119::event },
    EvCase { contract: 0, name: "Evt120", camel: "Evt120", parse: p120, filter: f120, wildcard: c0::events::evt120::wildcard_filter, event: c0::events::evt120::event },
    EvCase { contract: 0, name: "Evt121", camel: "Evt121", parse: p121, filter: f121, wildcard: c0::events::evt121::wildcard_filter, event: c0::events::evt121::event },
    EvCase { contract: 0, name: "Evt122", camel: "Evt122", parse: p122, filter: f122, wildcard: c0::events::evt122::wildcard_filter, event: c0::events::evt122::event },
    EvCase { contract: 0, name: "Evt123", camel: "Evt123", parse: p123, filter: f123, wildcard: c0::events::evt123::wildcard_filter, event: c0::events::evt123::event },
    EvCase { contract: 0, name: "Evt124", camel: "Evt124", parse: p124, filter: f124, wildcard: c0::events::evt124::wildcard_filter, event: c0::events::evt124::event },
    EvCase { contract: 0, name: "Evt125", camel: "Evt125", parse: p125, filter: f125, wildcard: c0::events::evt125::wildcard_filter, event: c0::events::evt125::event },
    EvCase { contract: 0, name: "Evt126", camel: "Evt126", parse: p126, filter: f126, wildcard: c0::events::evt126::wildcard_filter, event: c0::events::evt126::event },
    EvCase { contract: 0, name: "Evt127", camel: "Evt127", parse: p127, filter: f127, wildcard: c0::events::evt127::wildcard_filter, event: c0::events::evt127::event },
    EvCase { contract: 0, name: "Evt128", camel: "Evt128", parse: p128, filter: f128, wildcard: c0::events::evt128::wildcard_filter, event: c0::events::evt128::event },
    EvCase { contract: 0, name: "Evt129", camel: "Evt129", parse: p129, filter: f129, wildcard: c0::events::evt129::wildcard_filter, event: c0::events::evt129::event },
    EvCase { contract: 0, name: "Evt130", camel: "Evt130", parse: p130, filter: f130, wildcard: c0::events::evt130::wildcard_filter, event: c0::events::evt130::event },
    EvCase { contract: 0, name: "Evt131", camel: "Evt131", parse: p131, filter: f131, wildcard: c0::events::evt131::wildcard_filter, event: c0::events::evt131::event },
    EvCase { contract: 0, name: "Evt132", camel: "Evt132", parse: p132, filter: f132, wildcard: c0::events::evt132::wildcard_filter, event: c0::events::evt132::event },
    EvCase { contract: 0, name: "Evt133", camel: "Evt133", parse: p133, filter: f133, wildcard: c0::events::evt133::wildcard_filter, event: c0::events::evt133::event },
    EvCase { contract: 0, name: "Evt134", camel: "Evt134", parse: p134, filter: f134, wildcard: c0::events::evt134::wildcard_filter, event: c0::events::evt134::event },
    EvCase { contract: 0, name: "Evt135", camel: "Evt135", parse: p135, filter: f135, wildcard: c0::events::evt135::wildcard_filter, event: c0::events::evt135::event },
    EvCase { contract: 0, name: "Evt136", camel: "Evt136", parse: p136, filter: f136, wildcard: c0::events::evt136::wildcard_filter, event: c0::events::evt136::event },
    EvCase { contract: 0, name: "Evt137", camel: "Evt137", parse: p137, filter: f137, wildcard: c0::events::evt137::wildcard_filter, event: c0::events::evt137::event },
    EvCase { contract: 0, name: "Evt138", camel: "Evt138", parse: p138, filter: f138, wildcard: c0::events::evt138::wildcard_filter, event: c0::events::evt138::event },
    EvCase { contract: 0, name: "Evt139", camel: "Evt139", parse: p139, filter: f139, wildcard: c0::events::evt139::wildcard_filter, event: c0::events::evt139::event },
    EvCase { contract: 0, name: "Evt140", camel: "Evt140", parse: p140, filter: f140, wildcard: c0::events::evt140::wildcard_filter, event: c0::events::evt140::event },
    EvCase { contract: 0, name: "Evt141", camel: "Evt141", parse: p141, filter: f141, wildcard: c0::events::evt141::wildcard_filter, event: c0::events::evt141::event },
    EvCase { contract: 0, name: "Evt142", camel: "Evt142", parse: p142, filter: f142, wildcard: c0::events::evt142::wildcard_filter, event: c0::events::evt142::event },
    EvCase { contract: 0, name: "Evt143", camel: "Evt143", parse: p143, filter: f143, wildcard: c0::events::evt143::wildcard_filter, event: c0::events::evt143::event },
    EvCase { contract: 0, name: "Evt144", camel: "Evt144", parse: p144, filter: f144, wildcard: c0::events::evt144::wildcard_filter, event: c0::events::evt144::event },
    EvCase { contract: 0, name: "Evt145", camel: "Evt145", parse: p145, filter: f145, wildcard: c0::events::evt145::wildcard_filter, event: c0::events::evt145::event },
    EvCase { contract: 0, name: "Evt146", camel: "Evt146", parse: p146, filter: f146, wildcard: c0::events::evt146::wildcard_filter, event: c0::events::evt146::event },
    EvCase { contract: 0, name: "Evt147", camel: "Evt147", parse: p147, filter: f147, wildcard: c0::events::evt147::wildcard_filter, event: c0::events::evt147::event },
    EvCase { contract: 0, name: "Evt148", camel: "Evt148", parse: p148, filter: f148, wildcard: c0::events::evt148::wildcard_filter, event: c0::events::evt148::event },
    EvCase { contract: 0, name: "Evt149", camel: "Evt149", parse: p149, filter: f149, wildcard: c0::events::evt149::wildcard_filter, event: c0::events::evt149::event },
    EvCase { contract: 0, name: "Evt150", camel: "Evt150", parse: p150, filter: f150, wildcard: c0::events::evt150::wildcard_filter, event: c0::events::evt150::event },
    EvCase { contract: 0, name: "Evt151", camel: "Evt151", parse: p151, filter: f151, wildcard: c0::events::evt151::wildcard_filter, event: c0::events::evt151::event },
    EvCase { contract: 0, name: "Evt152", camel: "Evt152", parse: p152, filter: f152, wildcard: c0::events::evt152::wildcard_filter, event: c0::events::evt152::event },
    EvCase { contract: 0, name: "Evt153", camel: "Evt153", parse: p153, filter: f153, wildcard: c0::events::evt153::wildcard_filter, event: c0::events::evt153::event },
    EvCase { contract: 0, name: "Evt154", camel: "Evt154", parse: p154, filter: f154, wildcard: c0::events::evt154::wildcard_filter, event: c0::events::evt154::event },
    EvCase { contract: 0, name: "Evt155", camel: "Evt155", parse: p155, filter: f155, wildcard: c0::events::evt155::wildcard_filter, event: c0::events::evt155::event },
    EvCase { contract: 0, name: "Evt156", camel: "Evt156", parse: p156, filter: f156, wildcard: c0::events::evt156::wildcard_filter, event: c0::events::evt156::event },
    EvCase { contract: 0, name: "Evt157", camel: "Evt157", parse: p157, filter: f157, wildcard: c0::events::evt157::wildcard_filter, event: c0::events::evt157::event },
    EvCase { contract: 0, name: "Evt158", camel: "Evt158", parse: p158, filter: f158, wildcard: c0::events::evt158::wildcard_filter, event: c0::events::evt158::event },
    EvCase { contract: 0, name: "Evt159", camel: "Evt159", parse: p159, filter: f159, wildcard: c0::events::evt159::wildcard_filter, event: c0::events::evt159::event },
    EvCase { contract: 0, name: "Evt160", camel: "Evt160", parse: p160, filter: f160, wildcard: c0::events::evt160::wildcard_filter, event: c0::events::evt160::event },
    EvCase { contract: 0, name: "Evt161", camel: "Evt161", parse: p161, filter: f161, wildcard: c0::events::evt161::wildcard_filter, event: c0::events::evt161::event },
    EvCase { contract: 0, name: "Evt162", camel: "Evt162", parse: p162, filter: f162, wildcard: c0::events::evt162::wildcard_filter, event: c0::events::evt162::event },
    EvCase { contract: 0, name: "Evt163", camel: "Evt163", parse: p163, filter: f163, wildcard: c0::events::evt163::wildcard_filter, event: c0::events::evt163::event },
    EvCase { contract: 0, name: "Evt164", camel: "Evt164", parse: p164, filter: f164, wildcard: c0::events::evt164::wildcard_filter, event: c0::events::evt164::event },
    EvCase { contract: 0, name: "Evt165", camel: "Evt165", parse: p165, filter: f165, wildcard: c0::events::evt165::wildcard_filter, event: c0::events::evt165::event },
    EvCase { contract: 0, name: "Evt166", camel: "Evt166", parse: p166, filter: f166, wildcard: c0::events::evt166::wildcard_filter, event: c0::events::evt166::event },
    EvCase { contract: 0, name: "Evt167", camel: "Evt167", parse: p167, filter: f167, wildcard: c0::events::evt167::wildcard_filter, event: c0::events::evt167::event },
    EvCase { contract: 0, name: "Evt168", camel: "Evt168", parse: p168, filter: f168, wildcard: c0::events::evt168::wildcard_filter, event: c0::events::evt168::event },
    EvCase { contract: 0, name: "Evt169", camel: "Evt169", parse: p169, filter: f169, wildcard: c0::events::evt169::wildcard_filter, event: c0::events::evt169::event },
    EvCase { contract: 0, name: "Evt170", camel: "Evt170", parse: p170, filter: f170, wildcard: c0::events::evt170::wildcard_filter, event: c0::events::evt170::event },
    EvCase { contract: 0, name: "Evt171", camel: "Evt171", parse: p171, filter: f171, wildcard: c0::events::evt171::wildcard_filter, event: c0::events::evt171::event },
    EvCase { contract: 0, name: "Evt172", camel: "Evt172", parse: p172, filter: f172, wildcard: c0::events::evt172::wildcard_filter, event: c0::events::evt172::event },
    EvCase { contract: 0, name: "Evt173", camel: "Evt173", parse: p173, filter: f173, wildcard: c0::events::evt173::wildcard_filter, event: c0::events::evt173::event },
    EvCase { contract: 0, name: "Evt174", camel: "Evt174", parse: p174, filter: f174, wildcard: c0::events::evt174::wildcard_filter, event: c0::events::evt174::event },
    EvCase { contract: 0, name: "Evt175", camel: "Evt175", parse: p175, filter: f175, wildcard: c0::events::evt175::wildcard_filter, event: c0::events::evt175::event },
    EvCase { contract: 0, name: "Evt176", camel: "Evt176", parse: p176, filter: f176, wildcard: c0::events::evt176::wildcard_filter, event: c0::events::evt176::event },
    EvCase { contract: 0, name: "Evt177", camel: "Evt177", parse: p177, filter: f177, wildcard: c0::events::evt177::wildcard_filter, event: c0::events::evt177::event },
    EvCase { contract: 0, name: "Evt178", camel: "Evt178", parse: p178, filter: f178, wildcard: c0::events::evt178::wildcard_filter, event: c0::events::evt178::event },
    EvCase { contract: 0, name: "Evt179", camel: "Evt179", parse: p179, filter: f179, wildcard: c0::events::evt179::wildcard_filter, event: c0::events::evt179::event },
    EvCase { contract: 0, name: "Evt180", camel: "Evt180", parse: p180, filter: f180, wildcard: c0::events::evt180::wildcard_filter, event: c0::events::evt180::event },
    EvCase { contract: 0, name: "Evt181", camel: "Evt181", parse: p181, filter: f181, wildcard: c0::events::evt181::wildcard_filter, event: c0::events::evt181::event },
    EvCase { contract: 0, name: "Evt182", camel: "Evt182", parse: p182, filter: f182, wildcard: c0::events::evt182::wildcard_filter, event: c0::events::evt182::event },
    EvCase { contract: 0, name: "Evt183", camel: "Evt183", parse: p183, filter: f183, wildcard: c0::events::evt183::wildcard_filter, event: c0::events::evt183::event },
    EvCase { contract: 0, name: "Evt184", camel: "Evt184", parse: p184, filter: f184, wildcard: c0::events::evt184::wildcard_filter, event: c0::events::evt184::event },
    EvCase { contract: 0, name: "Evt185", camel: "Evt185", parse: p185, filter: f185, wildcard: c0::events::evt185::wildcard_filter, event: c0::events::evt185::event },
    EvCase { contract: 0, name: "Evt186", camel: "Evt186", parse: p186, filter: f186, wildcard: c0::events::evt186::wildcard_filter, event: c0::events::evt186::event },
    EvCase { contract: 0, name: "Evt187", camel: "Evt187", parse: p187, filter: f187, wildcard: c0::events::evt187::wildcard_filter, event: c0::events::evt187::event },
    EvCase { contract: 0, name: "Evt188", camel: "Evt188", parse: p188, filter: f188, wildcard: c0::events::evt188::wildcard_filter, event: c0::events::evt188::event },
    EvCase { contract: 0, name: "Evt189", camel: "Evt189", parse: p189, filter: f189, wildcard: c0::events::evt189::wildcard_filter, event: c0::events::evt189::event },
    EvCase { contract: 0, name: "Evt190", camel: "Evt190", parse: p190, filter: f190, wildcard: c0::events::evt190::wildcard_filter, event: c0::events::evt190::event },
    EvCase { contract: 0, name: "Evt191", camel: "Evt191", parse: p191, filter: f191, wildcard: c0::events::evt191::wildcard_filter, event: c0::events::evt191::event },
    EvCase { contract: 0, name: "Evt192", camel: "Evt192", parse: p192, filter: f192, wildcard: c0::events::evt192::wildcard_filter, event: c0::events::evt192::event },
    EvCase { contract: 0, name: "Evt193", camel: "Evt193", parse: p193, filter: f193, wildcard: c0::events::evt193::wildcard_filter, event: c0::events::evt193::event },
    EvCase { contract: 0, name: "Evt194", camel: "Evt194", parse: p194, filter: f194, wildcard: c0::events::evt194::wildcard_filter, event: c0::events::evt194::event },
    EvCase { contract: 0, name: "Evt195", camel: "Evt195", parse: p195, filter: f195, wildcard: c0::events::evt195::wildcard_filter, event: c0::events::evt195::event },
    EvCase { contract: 0, name: "Evt196", camel: "Evt196", parse: p196, filter: f196, wildcard: c0::events::evt196::wildcard_filter, event: c0::events::evt196::event },
    EvCase { contract: 0, name: "Evt197", camel: "Evt197", parse: p197, filter: f197, wildcard: c0::events::evt197::wildcard_filter, event: c0::events::evt197::event },
    EvCase { contract: 0, name: "Evt198", camel: "Evt198", parse: p198, filter: f198, wildcard: c0::events::evt198::wildcard_filter, event: c0::events::evt198::event },
    EvCase { contract: 0, name: "Evt199", camel: "Evt199", parse: p199, filter: f199, wildcard: c0::events::evt199::wildcard_filter, event: c0::events::evt199::event },
    EvCase { contract: 1, name: "Evt200", camel: "Evt200", parse: p200, filter: f200, wildcard: c1::events::evt200::wildcard_filter, event: c1::events::evt200::event },
    EvCase { contract: 1, name: "Evt201", camel: "Evt201", parse: p201, filter: f201, wildcard: c1::events::evt201::wildcard_filter, event: c1::events::evt201::event },
    EvCase { contract: 1, name: "Evt202", camel: "Evt202", parse: p202, filter: f202, wildcard: c1::events::evt202::wildcard_filter, event: c1::events::evt202::event },
    EvCase { contract: 1, name: "Evt203", camel: "Evt203", parse: p203, filter: f203, wildcard: c1::events::evt203::wildcard_filter, event: c1::events::evt203::event },
    EvCase { contract: 1, name: "Evt204", camel: "Evt204", parse: p204, filter: f204, wildcard: c1::events::evt204::wildcard_filter, event: c1::events::evt204::event },
    EvCase { contract: 1, name: "Evt205", camel: "Evt205", parse: p205, filter: f205, wildcard: c1::events::evt205::wildcard_filter, event: c1::events::evt205::event },
    EvCase { contract: 1, name: "Evt206", camel: "Evt206", parse: p206, filter: f206, wildcard: c1::events::evt206::wildcard_filter, event: c1::events::evt206::event },
    EvCase { contract: 1, name: "Evt207", camel: "Evt207", parse: p207, filter: f207, wildcard: c1::events::evt207::wildcard_filter, event: c1::events::evt207::event },
    EvCase { contract: 1, name: "Evt208", camel: "Evt208", parse: p208, filter: f208, wildcard: c1::events::evt208::wildcard_filter, event: c1::events::evt208::event },
    EvCase { contract: 1, name: "Evt209", camel: "Evt209", parse: p209, filter: f209, wildcard: c1::events::evt209::wildcard_filter, event: c1::events::evt209::event },
    EvCase { contract: 1, name: "Evt210", camel: "Evt210", parse: p210, filter: f210, wildcard: c1::events::evt210::wildcard_filter, event: c1::events::evt210::event },
    EvCase { contract: 1, name: "Evt211", camel: "Evt211", parse: p211, filter: f211, wildcard: c1::events::evt211::wildcard_filter, event: c1::events::evt211::event },
    EvCase { contract: 1, name: "Evt212", camel: "Evt212", parse: p212, filter: f212, wildcard: c1::events::evt212::wildcard_filter, event: c1::events::evt212::event },
    EvCase { contract: 1, name: "Evt213", camel: "Evt213", parse: p213, filter: f213, wildcard: c1::events::evt213::wildcard_filter, event: c1::events::evt213::event },
    EvCase { contract: 1, name: "Evt214", camel: "Evt214", parse: p214, filter: f214, wildcard: c1::events::evt214::wildcard_filter, event: c1::events::evt214::event },
    EvCase { contract: 1, name: "Evt215", camel: "Evt215", parse: p215, filter: f215, wildcard: c1::events::evt215::wildcard_filter, event: c1::events::evt215::event },
    EvCase { contract: 1, name: "Evt216", camel: "Evt216", parse: p216, filter: f216, wildcard: c1::events::evt216::wildcard_filter, event: c1::events::evt216::event },
    EvCase { contract: 1, name: "Evt217", camel: "Evt217", parse: p217, filter: f217, wildcard: c1::events::evt217::wildcard_filter, event: c1::events::evt217::event },
    EvCase { contract: 1, name: "Evt218", camel: "Evt218", parse: p218, filter: f218, wildcard: c1::events::evt218::wildcard_filter, event: c1::events::evt218::event },
    EvCase { contract: 1, name: "Evt219", camel: "Evt219", parse: p219, filter: f219, wildcard: c1::events::evt219::wildcard_filter, event: c1::events::evt219::event },
    EvCase { contract: 1, name: "Evt220", camel: "Evt220", parse: p220, filter: f220, wildcard: c1::events::evt220::wildcard_filter, event: c1::events::evt220::event },
    EvCase { contract: 1, name: "Evt221", camel: "Evt221", parse: p221, filter: f221, wildcard: c1::events::evt221::wildcard_filter, event: c1::events::evt221::event },
    EvCase { contract: 1, name: "Evt222", camel: "Evt222", parse: p222, filter: f222, wildcard: c1::events::evt222::wildcard_filter, event: c1::events::evt222::event },
    EvCase { contract: 1, name: "Evt223", camel: "Evt223", parse: p223, filter: f223, wildcard: c1::events::evt223::wildcard_filter, event: c1::events::evt223::event },
    EvCase { contract: 1, name: "Evt224", camel: "Evt224", parse: p224, filter: f224, wildcard: c1::events::evt224::wildcard_filter, event: c1::events::evt224::event },
    EvCase { contract: 1, name: "Evt225", camel: "Evt225", parse: p225, filter: f225, wildcard: c1::events::evt225::wildcard_filter, event: c1::events::evt225::event },
    EvCase { contract: 1, name: "Evt226", camel: "Evt226", parse: p226, filter: f226, wildcard: c1::events::evt226::wildcard_filter, event: c1::events::evt226::event },
    EvCase { contract: 1, name: "Evt227", camel: "Evt227", parse: p227, filter: f227, wildcard: c1::events::evt227::wildcard_filter, event: c1::events::evt227::event },
    EvCase { contract: 1, name: "Evt228", camel: "Evt228", parse: p228, filter: f228, wildcard: c1::events::evt228::wildcard_filter, event: c1::events::evt228::event },
    EvCase { contract: 1, name: "Evt229", camel: "Evt229", parse: p229, filter: f229, wildcard: c1::events::evt229::wildcard_filter, event: c1::events::evt229::event },
    EvCase { contract: 1, name: "Evt230", camel: "Evt230", parse: p230, filter: f230, wildcard: c1::events::evt230::wildcard_filter, event: c1::events::evt230::event },
    EvCase { contract: 1, name: "Evt231", camel: "Evt231", parse: p231, filter: f231, wildcard: c1::events::evt231::wildcard_filter, event: c1::events::evt231::event },
    EvCase { contract: 1, name: "Evt232", camel: "Evt232", parse: p232, filter: f232, wildcard: c1::events::evt232::wildcard_filter, event: c1::events::evt232::event },
    EvCase { contract: 1, name: "Evt233", camel: "Evt233", parse: p233, filter: f233, wildcard: c1::events::evt233::wildcard_filter, event: c1::events::evt233::event },
    EvCase { contract: 1, name: "Evt234", camel: "Evt234", parse: p234, filter: f234, wildcard: c1::events::evt234::wildcard_filter, event: c1::events::evt234::event },
    EvCase { contract: 1, name: "Evt235", camel: "Evt235", parse: p235, filter: f235, wildcard: c1::events::evt235::wildcard_filter, event: c1::events::evt235::event },
    EvCase { contract: 1, name: "Evt236", camel: "Evt236", parse: p236, filter: f236, wildcard: c1::events::evt236::wildcard_filter, event: c1::events::evt236::event },
    EvCase { contract: 1, name: "Evt237", camel: "Evt237", parse: p237, filter: f237, wildcard: c1::events::evt237::wildcard_filter, event: c1::events::evt237::event },
    EvCase { contract: 1, name: "Evt238", camel: "Evt238", parse: p238, filter: f238, wildcard: c1::events::evt238::wildcard_filter, event: c1::events::evt238::event },
    EvCase { contract: 1, name: "Evt239", camel: "Evt239", parse: p239, filter: f239, wildcard: c1::events::evt239::wildcard_filter, event: c1::events::evt239::event },
    EvCase { contract: 1, name: "Evt240", camel: "Evt240", parse: p240, filter: f240, wildcard: c1::events::evt240::wildcard_filter, event: c1::events::evt240::event },
    EvCase { contract: 1, name: "Evt241", camel: "Evt241", parse: p241, filter: f241, wildcard: c1::events::evt241::wildcard_filter, event: c1::events::evt241::event },
    EvCase { contract: 1, name: "Evt242", camel: "Evt242", parse: p242, filter: f242, wildcard: c1::events::evt242::wildcard_filter, event: c1::events::evt242::event },
    EvCase { contract: 1, name: "Evt243", camel: "Evt243", parse: p243, filter: f243, wildcard: c1::events::evt243::wildcard_filter, event: c1::events::evt243::event },
    EvCase { contract: 1, name: "Evt244", camel: "Evt244", parse: p244, filter: f244, wildcard: c1::events::evt244::wildcard_filter, event: c1::events::evt244::event },
    EvCase { contract: 1, name: "Evt245", camel: "Evt245", parse: p245, filter: f245, wildcard: c1::events::evt245::wildcard_filter, event: c1::events::evt245::event },
    EvCase { contract: 1, name: "Evt246", camel: "Evt246", parse: p246, filter: f246, wildcard: c1::events::evt246::wildcard_filter, event: c1::events::evt246::event },
    EvCase { contract: 1, name: "Evt247", camel: "Evt247", parse: p247, filter: f247, wildcard: c1::events::evt247::wildcard_filter, event: c1::events::evt247::event },
    EvCase { contract: 1, name: "Evt248", camel: "Evt248", parse: p248, filter: f248, wildcard: c1::events::evt248::wildcard_filter, event: c1::events::evt248::event },
    EvCase { contract: 1, name: "Evt249", camel: "Evt249", parse: p249, filter: f249, wildcard: c1::events::evt249::wildcard_filter, event: c1::events::evt249::event },
    EvCase { contract: 1, name: "Evt250", camel: "Evt250", parse: p250, filter: f250, wildcard: c1::events::evt250::wildcard_filter, event: c1::events::evt250::event },
    EvCase { contract: 1, name: "Evt251", camel: "Evt251", parse: p251, filter: f251, wildcard: c1::events::evt251::wildcard_filter, event: c1::events::evt251::event },
    EvCase { contract: 1, name: "Evt252", camel: "Evt252", parse: p252, filter: f252, wildcard: c1::events::evt252::wildcard_filter, event: c1::events::evt252::event },
    EvCase { contract: 1, name: "Evt253", camel: "Evt253", parse: p253, filter: f253, wildcard: c1::events::evt253::wildcard_filter, event: c1::events::evt253::event },
    EvCase { contract: 1, name: "Evt254", camel: "Evt254", parse: p254, filter: f254, wildcard: c1::events::evt254::wildcard_filter, event: c1::events::evt254::event },
    EvCase { contract: 1, name: "Evt255", camel: "Evt255", parse: p255, filter: f255, wildcard: c1::events::evt255::wildcard_filter, event: c1::events::evt255::event },
    EvCase { contract: 1, name: "Evt256", camel: "Evt256", parse: p256, filter: f256, wildcard: c1::events::evt256::wildcard_filter, event: c1::events::evt256::event },
    EvCase { contract: 1, name: "Evt257", camel: "Evt257", parse: p257, filter: f257, wildcard: c1::events::evt257::wildcard_filter, event: c1::events::evt257::event },
    EvCase { contract: 1, name: "Evt258", camel: "Evt258", parse: p258, filter: f258, wildcard: c1::events::evt258::wildcard_filter, event: c1::events::evt258::event },
    EvCase { contract: 1, name: "Evt259", camel: "Evt259", parse: p259, filter: f259, wildcard: c1::events::evt259::wildcard_filter, event: c1::events::evt259::event },
    EvCase { contract: 1, name: "Evt260", camel: "Evt260", parse: p260, filter: f260, wildcard: c1::events::evt260::wildcard_filter, event: c1::events::evt260::event },
    EvCase { contract: 1, name: "Evt261", camel: "Evt261", parse: p261, filter: f261, wildcard: c1::events::evt261::wildcard_filter, event: c1::events::evt261::event },
    EvCase { contract: 1, name: "Evt262", camel: "Evt262", parse: p262, filter: f262, wildcard: c1::events::evt262::wildcard_filter, event: c1::events::evt262::event },
    EvCase { contract: 1, name: "Evt263", camel: "Evt263", parse: p263, filter: f263, wildcard: c1::events::evt263::wildcard_filter, event: c1::events::evt263::event },
    EvCase { contract: 1, name: "Evt264", camel: "Evt264", parse: p264, filter: f264, wildcard: c1::events::evt264::wildcard_filter, event: c1::events::evt264::event },
    EvCase { contract: 1, name: "Evt265", camel: "Evt265", parse: p265, filter: f265, wildcard: c1::events::evt265::wildcard_filter, event: c1::events::evt265::event },
    EvCase { contract: 1, name: "Evt266", camel: "Evt266", parse: p266, filter: f266, wildcard: c1::events::evt266::wildcard_filter, event: c1::events::evt266::event },
    EvCase { contract: 1, name: "Evt267", camel: "Evt267", parse: p267, filter: f267, wildcard: c1::events::evt267::wildcard_filter, event: c1::events::evt267::event },
    EvCase { contract: 1, name: "Evt268", camel: "Evt268", parse: p268, filter: f268, wildcard: c1::events::evt268::wildcard_filter, event: c1::events::evt268::event },
    EvCase { contract: 1, name: "Evt269", camel: "Evt269", parse: p269, filter: f269, wildcard: c1::events::evt269::wildcard_filter, event: c1::events::evt269::event },
    EvCase { contract: 1, name: "Evt270", camel: "Evt270", parse: p270, filter: f270, wildcard: c1::events::evt270::wildcard_filter, event: c1::events::evt270::event },
    EvCase { contract: 1, name: "Evt271", camel: "Evt271", parse: p271, filter: f271, wildcard: c1::events::evt271::wildcard_filter, event: c1::events::evt271::event },
    EvCase { contract: 1, name: "Evt272", camel: "Evt272", parse: p272, filter: f272, wildcard: c1::events::evt272::wildcard_filter, event: c1::events::evt272::event },
    EvCase { contract: 1, name: "Evt273", camel: "Evt273", parse: p273, filter: f273, wildcard: c1::events::evt273::wildcard_filter, event: c1::events::evt273::event },
    EvCase { contract: 1, name: "Evt274", camel: "Evt274", parse: p274, filter: f274, wildcard: c1::events::evt274::wildcard_filter, event: c1::events::evt274::event },
    EvCase { contract: 1, name: "Evt275", camel: "Evt275", parse: p275, filter: f275, wildcard: c1::events::evt275::wildcard_filter, event: c1::events::evt275::event },
    EvCase { contract: 2, name: "Evt276", camel: "Evt276", parse: p276, filter: f276, wildcard: c2::events::evt276::wildcard_filter, event: c2::events::evt276::event },
    EvCase { contract: 2, name: "Evt277", camel: "Evt277", parse: p277, filter: f277, wildcard: c2::events::evt277::wildcard_filter, event: c2::events::evt277::event },
    EvCase { contract: 2, name: "Evt278", camel: "Evt278", parse: p278, filter: f278, wildcard: c2::events::evt278::wildcard_filter, event: c2::events::evt278::event },
    EvCase { contract: 2, name: "Evt279", camel: "Evt279", parse: p279, filter: f279, wildcard: c2::events::evt279::wildcard_filter, event: c2::events::evt279::event },
    EvCase { contract: 2, name: "Evt280", camel: "Evt280", parse: p280, filter: f280, wildcard: c2::events::evt280::wildcard_filter, event: c2::events::evt280::event },
    EvCase { contract: 2, name: "Evt281", camel: "Evt281", parse: p281, filter: f281, wildcard: c2::events::evt281::wildcard_filter, event: c2::events::evt281::event },
    EvCase { contract: 2, name: "Evt282", camel: "Evt282", parse: p282, filter: f282, wildcard: c2::events::evt282::wildcard_filter, event: c2::events::evt282::event },
    EvCase { contract: 2, name: "Evt283", camel: "Evt283", parse: p283, filter: f283, wildcard: c2::events::evt283::wildcard_filter, event: c2::events::evt283::event },
    EvCase { contract: 2, name: "Evt284", camel: "Evt284", parse: p284, filter: f284, wildcard: c2::events::evt284::wildcard_filter, event: c2::events::evt284::event },
    EvCase { contract: 2, name: "Evt285", camel: "Evt285", parse: p285, filter: f285, wildcard: c2::events::evt285::wildcard_filter, event: c2::events::evt285::event },
    EvCase { contract: 2, name: "Evt286", camel: "Evt286", parse: p286, filter: f286, wildcard: c2::events::evt286::wildcard_filter, event: c2::events::evt286::event },
    EvCase { contract: 2, name: "Evt287", camel: "Evt287", parse: p287, filter: f287, wildcard: c2::events::evt287::wildcard_filter, event: c2::events::evt287::event },
    EvCase { contract: 2, name: "Evt288", camel: "Evt288", parse: p288, filter: f288, wildcard: c2::events::evt288::wildcard_filter, event: c2::events::evt288::event },
    EvCase { contract: 2, name: "Evt289", camel: "Evt289", parse: p289, filter: f289, wildcard: c2::events::evt289::wildcard_filter, event: c2::events::evt289::event },
    EvCase { contract: 2, name: "Evt290", camel: "Evt290", parse: p290, filter: f290, wildcard: c2::events::evt290::wildcard_filter, event: c2::events::evt290::event },
    EvCase { contract: 2, name: "Evt291", camel: "Evt291", parse: p291, filter: f291, wildcard: c2::events::evt291::wildcard_filter, event: c2::events::evt291::event },
    EvCase { contract: 2, name: "Evt292", camel: "Evt292", parse: p292, filter: f292, wildcard: c2::events::evt292::wildcard_filter, event: c2::events::evt292::event },
    EvCase { contract: 2, name: "Evt293", camel: "Evt293", parse: p293, filter: f293, wildcard: c2::events::evt293::wildcard_filter, event: c2::events::evt293::event },
    EvCase { contract: 2, name: "Evt294", camel: "Evt294", parse: p294, filter: f294, wildcard: c2::events::evt294::wildcard_filter, event: c2::events::evt294::event },
    EvCase { contract: 2, name: "Evt295", camel: "Evt295", parse: p295, filter: f295, wildcard: c2::events::evt295::wildcard_filter, event: c2::events::evt295::event },
    EvCase { contract: 2, name: "Evt296", camel: "Evt296", parse: p296, filter: f296, wildcard: c2::events::evt296::wildcard_filter, event: c2::events::evt296::event },
    EvCase { contract: 2, name: "Evt297", camel: "Evt297", parse: p297, filter: f297, wildcard: c2::events::evt297::wildcard_filter, event: c2::events::evt297::event },
    EvCase { contract: 2, name: "Evt298", camel: "Evt298", parse: p298, filter: f298, wildcard: c2::events::evt298::wildcard_filter, event: c2::events::evt298::event },
    EvCase { contract: 2, name: "Evt299", camel: "Evt299", parse: p299, filter: f299, wildcard: c2::events::evt299::wildcard_filter, event: c2::events::evt299::event },
    EvCase { contract: 2, name: "Evt300", camel: "Evt300", parse: p300, filter: f300, wildcard: c2::events::evt300::wildcard_filter, event: c2::events::evt300::event },
    EvCase { contract: 2, name: "Evt301", camel: "Evt301", parse: p301, filter: f301, wildcard: c2::events::evt301::wildcard_filter, event: c2::events::evt301::event },
    EvCase { contract: 2, name: "Evt302", camel: "Evt302", parse: p302, filter: f302, wildcard: c2::events::evt302::wildcard_filter, event: c2::events::evt302::event },
    EvCase { contract: 2, name: "Evt303", camel: "Evt303", parse: p303, filter: f303, wildcard: c2::events::evt303::wildcard_filter, event: c2::events::evt303::event },
    EvCase { contract: 2, name: "Evt304", camel: "Evt304", parse: p304, filter: f304, wildcard: c2::events::evt304::wildcard_filter, event: c2::events::evt304::event },
    EvCase { contract: 2, name: "Evt305", camel: "Evt305", parse: p305, filter: f305, wildcard: c2::events::evt305::wildcard_filter, event: c2::events::evt305::event },
    EvCase { contract: 2, name: "Evt306", camel: "Evt306", parse: p306, filter: f306, wildcard: c2::events::evt306::wildcard_filter, event: c2::events::evt306::event },
    EvCase { contract: 2, name: "Evt307", camel: "Evt307", parse: p307, filter: f307, wildcard: c2::events::evt307::wildcard_filter, event: c2::events::evt307::event },
    EvCase { contract: 2, name: "Evt308", camel: "Evt308", parse: p308, filter: f308, wildcard: c2::events::evt308::wildcard_filter, event: c2::events::evt308::event },
    EvCase { contract: 2, name: "Evt309", camel: "Evt309", parse: p309, filter: f309, wildcard: c2::events::evt309::wildcard_filter, event: c2::events::evt309::event },
    EvCase { contract: 2, name: "Evt310", camel: "Evt310", parse: p310, filter: f310, wildcard: c2::events::evt310::wildcard_filter, event: c2::events::evt310::event },
    EvCase { contract: 2, name: "Evt311", camel: "Evt311", parse: p311, filter: f311, wildcard: c2::events::evt311::wildcard_filter, event: c2::events::evt311::event },
    EvCase { contract: 2, name: "Evt312", camel: "Evt312", parse: p312, filter: f312, wildcard: c2::events::evt312::wildcard_filter, event: c2::events::evt312::event },
    EvCase { contract: 2, name: "Evt313", camel: "Evt313", parse: p313, filter: f313, wildcard: c2::events::evt313::wildcard_filter, event: c2::events::evt313::event },
    EvCase { contract: 2, name: "Evt314", camel: "Evt314", parse: p314, filter: f314, wildcard: c2::events::evt314::wildcard_filter, event: c2::events::evt314::event },
    EvCase { contract: 2, name: "Evt315", camel: "Evt315", parse: p315, filter: f315, wildcard: c2::events::evt315::wildcard_filter, event: c2::events::evt315::event },
    EvCase { contract: 2, name: "Evt316", camel: "Evt316", parse: p316, filter: f316, wildcard: c2::events::evt316::wildcard_filter, event: c2::events::evt316::event },
    EvCase { contract: 2, name: "Evt317", camel: "Evt317", parse: p317, filter: f317, wildcard: c2::events::evt317::wildcard_filter, event: c2::events::evt317::event },
    EvCase { contract: 2, name: "Evt318", camel: "Evt318", parse: p318, filter: f318, wildcard: c2::events::evt318::wildcard_filter, event: c2::events::evt318::event },
    EvCase { contract: 2, name: "Evt319", camel: "Evt319", parse: p319, filter: f319, wildcard: c2::events::evt319::wildcard_filter, event: c2::events::evt319::event },
    EvCase { contract: 2, name: "Evt320", camel: "Evt320", parse: p320, filter: f320, wildcard: c2::events::evt320::wildcard_filter, event: c2::events::evt320::event },
    EvCase { contract: 2, name: "Evt321", camel: "Evt321", parse: p321, filter: f321, wildcard: c2::events::evt321::wildcard_filter, event: c2::events::evt321::event },
    EvCase { contract: 2, name: "Evt322", camel: "Evt322", parse: p322, filter: f322, wildcard: c2::events::evt322::wildcard_filter, event: c2::events::evt322::event },
    EvCase { contract: 2, name: "Evt323", camel: "Evt323", parse: p323, filter: f323, wildcard: c2::events::evt323::wildcard_filter, event: c2::events::evt323::event },
    EvCase { contract: 2, name: "Evt324", camel: "Evt324", parse: p324, filter: f324, wildcard: c2::events::evt324::wildcard_filter, event: c2::events::evt324::event },
    EvCase { contract: 2, name: "Evt325", camel: "Evt325", parse: p325, filter: f325, wildcard: c2::events::evt325::wildcard_filter, event: c2::events::evt325::event },
    EvCase { contract: 2, name: "Evt326", camel: "Evt326", parse: p326, filter: f326, wildcard: c2::events::evt326::wildcard_filter, event: c2::events::evt326::event },
    EvCase { contract: 2, name: "Evt327", camel: "Evt327", parse: p327, filter: f327, wildcard: c2::events::evt327::wildcard_filter, event: c2::events::evt327::event },
    EvCase { contract: 2, name: "Evt328", camel: "Evt328", parse: p328, filter: f328, wildcard: c2::events::evt328::wildcard_filter, event: c2::events::evt328::event },
    EvCase { contract: 2, name: "Evt329", camel: "Evt329", parse: p329, filter: f329, wildcard: c2::events::evt329::wildcard_filter, event: c2::events::evt329::event },
    EvCase { contract: 2, name: "Evt330", camel: "Evt330", parse: p330, filter: f330, wildcard: c2::events::evt330::wildcard_filter, event: c2::events::evt330::event },
    EvCase { contract: 2, name: "Evt331", camel: "Evt331", parse: p331, filter: f331, wildcard: c2::events::evt331::wildcard_filter, event: c2::events::evt331::event },
    EvCase { contract: 2, name: "Evt332", camel: "Evt332", parse: p332, filter: f332, wildcard: c2::events::evt332::wildcard_filter, event: c2::events::evt332::event },
    EvCase { contract: 2, name: "Evt333", camel: "Evt333", parse: p333, filter: f333, wildcard: c2::events::evt333::wildcard_filter, event: c2::events::evt333::event },
    EvCase { contract: 2, name: "Evt334", camel: "Evt334", parse: p334, filter: f334, wildcard: c2::events::evt334::wildcard_filter, event: c2::events::evt334::event },
    EvCase { contract: 2, name: "Evt335", camel: "Evt335", parse: p335, filter: f335, wildcard: c2::events::evt335::wildcard_filter, event: c2::events::evt335::event },
    EvCase { contract: 2, name: "Evt336", camel: "Evt336", parse: p336, filter: f336, wildcard: c2::events::evt336::wildcard_filter, event: c2::events::evt336::event },
    EvCase { contract: 2, name: "Evt337", camel: "Evt337", parse: p337, filter: f337, wildcard: c2::events::evt337::wildcard_filter, event: c2::events::evt337::event },
    EvCase { contract: 2, name: "Evt338", camel: "Evt338", parse: p338, filter: f338, wildcard: c2::events::evt338::wildcard_filter, event: c2::events::evt338::event },
    EvCase { contract: 2, name: "Evt339", camel: "Evt339", parse: p339, filter: f339, wildcard: c2::events::evt339::wildcard_filter, event: c2::events::evt339::event },
    EvCase { contract: 2, name: "Evt340", camel: "Evt340", parse: p340, filter: f340, wildcard: c2::events::evt340::wildcard_filter, event: c2::events::evt340::event },
    EvCase { contract: 2, name: "Evt341", camel: "Evt341", parse: p341, filter: f341, wildcard: c2::events::evt341::wildcard_filter, event: c2::events::evt341::event },
    EvCase { contract: 2, name: "Evt342", camel: "Evt342", parse: p342, filter: f342, wildcard: c2::events::evt342::wildcard_filter, event: c2::events::evt342::event },
    EvCase { contract: 2, name: "Evt343", camel: "Evt343", parse: p343, filter: f343, wildcard: c2::events::evt343::wildcard_filter, event: c2::events::evt343::event },
    EvCase { contract: 2, name: "Evt344", camel: "Evt344", parse: p344, filter: f344, wildcard: c2::events::evt344::wildcard_filter, event: c2::events::evt344::event },
    EvCase { contract: 2, name: "Evt345", camel: "Evt345", parse: p345, filter: f345, wildcard: c2::events::evt345::wildcard_filter, event: c2::events::evt345::event },
    EvCase { contract: 2, name: "Evt346", camel: "Evt346", parse: p346, filter: f346, wildcard: c2::events::evt346::wildcard_filter, event: c2::events::evt346::event },
    EvCase { contract: 2, name: "Evt347", camel: "Evt347", parse: p347, filter: f347, wildcard: c2::events::evt347::wildcard_filter, event: c2::events::evt347::event },
    EvCase { contract: 2, name: "Evt348", camel: "Evt348", parse: p348, filter: f348, wildcard: c2::events::evt348::wildcard_filter, event: c2::events::evt348::event },
    EvCase { contract: 2, name: "Evt349", camel: "Evt349", parse: p349, filter: f349, wildcard: c2::events::evt349::wildcard_filter, event: c2::events::evt349::event },
    EvCase { contract: 2, name: "Evt350", camel: "Evt350", parse: p350, filter: f350, wildcard: c2::events::evt350::wildcard_filter, event: c2::events::evt350::event },
    EvCase { contract: 2, name: "Evt351", camel: "Evt351", parse: p351, filter: f351, wildcard: c2::events::evt351::wildcard_filter, event: c2::events::evt351::event },
    EvCase { contract: 2, name: "Evt352", camel: "Evt352", parse: p352, filter: f352, wildcard: c2::events::evt352::wildcard_filter, event: c2::events::evt352::event },
    EvCase { contract: 2, name: "Evt353", camel: "Evt353", parse: p353, filter: f353, wildcard: c2::events::evt353::wildcard_filter, event: c2::events::evt353::event },
    EvCase { contract: 2, name: "Evt354", camel: "Evt354", parse: p354, filter: f354, wildcard: c2::events::evt354::wildcard_filter, event: c2::events::evt354::event },
    EvCase { contract: 2, name: "Evt355", camel: "Evt355", parse: p355, filter: f355, wildcard: c2::events::evt355::wildcard_filter, event: c2::events::evt355::event },
    EvCase { contract: 2, name: "Evt356", camel: "Evt356", parse: p356, filter: f356, wildcard: c2::events::evt356::wildcard_filter, event: c2::events::evt356::event },
    EvCase { contract: 2, name: "Evt357", camel: "Evt357", parse: p357, filter: f357, wildcard: c2::events::evt357::wildcard_filter, event: c2::events::evt357::event },
    EvCase { contract: 2, name: "Evt358", camel: "Evt358", parse: p358, filter: f358, wildcard: c2::events::evt358::wildcard_filter, event: c2::events::evt358::event },
    EvCase { contract: 2, name: "Evt359", camel: "Evt359", parse: p359, filter: f359, wildcard: c2::events::evt359::wildcard_filter, event: c2::events::evt359::event },
    EvCase { contract: 2, name: "Evt360", camel: "Evt360", parse: p360, filter: f360, wildcard: c2::events::evt360::wildcard_filter, event: c2::events::evt360::event },
    EvCase { contract: 2, name: "Evt361", camel: "Evt361", parse: p361, filter: f361, wildcard: c2::events::evt361::wildcard_filter, event: c2::events::evt361::event },
    EvCase { contract: 2, name: "Evt362", camel: "Evt362", parse: p362, filter: f362, wildcard: c2::events::evt362::wildcard_filter, event: c2::events::evt362::event },
    EvCase { contract: 2, name: "Evt363", camel: "Evt363", parse: p363, filter: f363, wildcard: c2::events::evt363::wildcard_filter, event: c2::events::evt363::event },
    EvCase { contract: 2, name: "Evt364", camel: "Evt364", parse: p364, filter: f364, wildcard: c2::events::evt364::wildcard_filter, event: c2::events::evt364::event },
    EvCase { contract: 2, name: "Evt365", camel: "Evt365", parse: p365, filter: f365, wildcard: c2::events::evt365::wildcard_filter, event: c2::events::evt365::event },
    EvCase { contract: 2, name: "Evt366", camel: "Evt366", parse: p366, filter: f366, wildcard: c2::events::evt366::wildcard_filter, event: c2::events::evt366::event },
    EvCase { contract: 2, name: "Evt367", camel: "Evt367", parse: p367, filter: f367, wildcard: c2::events::evt367::wildcard_filter, event: c2::events::evt367::event },
    EvCase { contract: 2, name: "Evt368", camel: "Evt368", parse: p368, filter: f368, wildcard: c2::events::evt368::wildcard_filter, event: c2::events::evt368::event },
    EvCase { contract: 2, name: "Evt369", camel: "Evt369", parse: p369, filter: f369, wildcard: c2::events::evt369::wildcard_filter, event: c2::events::evt369::event },
    EvCase { contract: 2, name: "Evt370", camel: "Evt370", parse: p370, filter: f370, wildcard: c2::events::evt370::wildcard_filter, event: c2::events::evt370::event },
    EvCase { contract: 2, name: "Evt371", camel: "Evt371", parse: p371, filter: f371, wildcard: c2::events::evt371::wildcard_filter, event: c2::events::evt371::event },
    EvCase { contract: 2, name: "Evt372", camel: "Evt372", parse: p372, filter: f372, wildcard: c2::events::evt372::wildcard_filter, event: c2::events::evt372::event },
    EvCase { contract: 2, name: "Evt373", camel: "Evt373", parse: p373, filter: f373, wildcard: c2::events::evt373::wildcard_filter, event: c2::events::evt373::event },
    EvCase { contract: 2, name: "Evt374", camel: "Evt374", parse: p374, filter: f374, wildcard: c2::events::evt374::wildcard_filter, event: c2::events::evt374::event },
    EvCase { contract: 2, name: "Evt375", camel: "Evt375", parse: p375, filter: f375, wildcard: c2::events::evt375::wildcard_filter, event: c2::events::evt375::event },
    EvCase { contract: 2, name: "Evt376", camel: "Evt376", parse: p376, filter: f376, wildcard: c2::events::evt376::wildcard_filter, event: c2::events::evt376::event },
    EvCase { contract: 2, name: "Evt377", camel: "Evt377", parse: p377, filter: f377, wildcard: c2::events::evt377::wildcard_filter, event: c2::events::evt377::event },
    EvCase { contract: 2, name: "Evt378", camel: "Evt378", parse: p378, filter: f378, wildcard: c2::events::evt378::wildcard_filter, event: c2::events::evt378::event },
    EvCase { contract: 2, name: "Evt379", camel: "Evt379", parse: p379, filter: f379, wildcard: c2::events::evt379::wildcard_filter, event: c2::events::evt379::event },
    EvCase { contract: 2, name: "Evt380", camel: "Evt380", parse: p380, filter: f380, wildcard: c2::events::evt380::wildcard_filter, event: c2::events::evt380::event },
    EvCase { contract: 2, name: "Evt381", camel: "Evt381", parse: p381, filter: f381, wildcard: c2::events::evt381::wildcard_filter, event: c2::events::evt381::event },
    EvCase { contract: 2, name: "Evt382", camel: "Evt382", parse: p382, filter: f382, wildcard: c2::events::evt382::wildcard_filter, event: c2::events::evt382::event },
    EvCase { contract: 2, name: "Evt383", camel: "Evt383", parse: p383, filter: f383, wildcard: c2::events::evt383::wildcard_filter, event: c2::events::evt383::event },
    EvCase { contract: 2, name: "Evt384", camel: "Evt384", parse: p384, filter: f384, wildcard: c2::events::evt384::wildcard_filter, event: c2::events::evt384::event },
    EvCase { contract: 2, name: "Evt385", camel: "Evt385", parse: p385, filter: f385, wildcard: c2::events::evt385::wildcard_filter, event: c2::events::evt385::event },
    EvCase { contract: 2, name: "Evt386", camel: "Evt386", parse: p386, filter: f386, wildcard: c2::events::evt386::wildcard_filter, event: c2::events::evt386::event },
    EvCase { contract: 2, name: "Evt387", camel: "Evt387", parse: p387, filter: f387, wildcard: c2::events::evt387::wildcard_filter, event: c2::events::evt387::event },
    EvCase { contract: 2, name: "Evt388", camel: "Evt388", parse: p388, filter: f388, wildcard: c2::events::evt388::wildcard_filter, event: c2::events::evt388::event },
    EvCase { contract: 2, name: "Evt389", camel: "Evt389", parse: p389, filter: f389, wildcard: c2::events::evt389::wildcard_filter, event: c2::events::evt389::event },
    EvCase { contract: 2, name: "Evt390", camel: "Evt390", parse: p390, filter: f390, wildcard: c2::events::evt390::wildcard_filter, event: c2::events::evt390::event },
    EvCase { contract: 2, name: "Evt391", camel: "Evt391", parse: p391, filter: f391, wildcard: c2::events::evt391::wildcard_filter, event: c2::events::evt391::event },
    EvCase { contract: 2, name: "Evt392", camel: "Evt392", parse: p392, filter: f392, wildcard: c2::events::evt392::wildcard_filter, event: c2::events::evt392::event },
    EvCase { contract: 2, name: "Evt393", camel: "Evt393", parse: p393, filter: f393, wildcard: c2::events::evt393::wildcard_filter, event: c2::events::evt393::event },
    EvCase { contract: 2, name: "Evt394", camel: "Evt394", parse: p394, filter: f394, wildcard: c2::events::evt394::wildcard_filter, event: c2::events::evt394::event },
    EvCase { contract: 2, name: "Evt395", camel: "Evt395", parse: p395, filter: f395, wildcard: c2::events::evt395::wildcard_filter, event: c2::events::evt395::event },
    EvCase { contract: 2, name: "Evt396", camel: "Evt396", parse: p396, filter: f396, wildcard: c2::events::evt396::wildcard_filter, event: c2::events::evt396::event },
    EvCase { contract: 2, name: "Evt397", camel: "Evt397", parse: p397, filter: f397, wildcard: c2::events::evt397::wildcard_filter, event: c2::events::evt397::event },
    EvCase { contract: 2, name: "Evt398", camel: "Evt398", parse: p398, filter: f398, wildcard: c2::events::evt398::wildcard_filter, event: c2::events::evt398::event },
    EvCase { contract: 2, name: "Evt399", camel: "Evt399", parse: p399, filter: f399, wildcard: c2::events::evt399::wildcard_filter, event: c2::events::evt399::event },
    EvCase { contract: 2, name: "Evt400", camel: "Evt400", parse: p400, filter: f400, wildcard: c2::events::evt400::wildcard_filter, event: c2::events::evt400::event },
    EvCase { contract: 2, name: "Evt401", camel: "Evt401", parse: p401, filter: f401, wildcard: c2::events::evt401::wildcard_filter, event: c2::events::evt401::event },
    EvCase { contract: 2, name: "Evt402", camel: "Evt402", parse: p402, filter: f402, wildcard: c2::events::evt402::wildcard_filter, event: c2::events::evt402::event },
    EvCase { contract: 2, name: "Evt403", camel: "Evt403", parse: p403, filter: f403, wildcard: c2::events::evt403::wildcard_filter, event: c2::events::evt403::event },
    EvCase { contract: 2, name: "Evt404", camel: "Evt404", parse: p404, filter: f404, wildcard: c2::events::evt404::wildcard_filter, event: c2::events::evt404::event },
    EvCase { contract: 2, name: "Evt405", camel: "Evt405", parse: p405, filter: f405, wildcard: c2::events::evt405::wildcard_filter, event: c2::events::evt405::event },
    EvCase { contract: 2, name: "Evt406", camel: "Evt406", parse: p406, filter: f406, wildcard: c2::events::evt406::wildcard_filter, event: c2::events::evt406::event },
    EvCase { contract: 2, name: "Evt407", camel: "Evt407", parse: p407, filter: f407, wildcard: c2::events::evt407::wildcard_filter, event: c2::events::evt407::event },
    EvCase { contract: 2, name: "Evt408", camel: "Evt408", parse: p408, filter: f408, wildcard: c2::events::evt408::wildcard_filter, event: c2::events::evt408::event },
    EvCase { contract: 2, name: "Evt409", camel: "Evt409", parse: p409, filter: f409, wildcard: c2::events::evt409::wildcard_filter, event: c2::events::evt409::event },
    EvCase { contract: 2, name: "Evt410", camel: "Evt410", parse: p410, filter: f410, wildcard: c2::events::evt410::wildcard_filter, event: c2::events::evt410::event },
    EvCase { contract: 2, name: "Evt411", camel: "Evt411", parse: p411, filter: f411, wildcard: c2::events::evt411::wildcard_filter, event: c2::events::evt411::event },
    EvCase { contract: 2, name: "Evt412", camel: "Evt412", parse: p412, filter: f412, wildcard: c2::events::evt412::wildcard_filter, event: c2::events::evt412::event },
    EvCase { contract: 2, name: "Evt413", camel: "Evt413", parse: p413, filter: f413, wildcard: c2::events::evt413::wildcard_filter, event: c2::events::evt413::event },
    EvCase { contract: 2, name: "Evt414", camel: "Evt414", parse: p414, filter: f414, wildcard: c2::events::evt414::wildcard_filter, event: c2::events::evt414::event },
    EvCase { contract: 2, name: "Evt415", camel: "Evt415", parse: p415, filter: f415, wildcard: c2::events::evt415::wildcard_filter, event: c2::events::evt415::event },
    EvCase { contract: 2, name: "Evt416", camel: "Evt416", parse: p416, filter: f416, wildcard: c2::events::evt416::wildcard_filter, event: c2::events::evt416::event },
    EvCase { contract: 2, name: "Evt417", camel: "Evt417", parse: p417, filter: f417, wildcard: c2::events::evt417::wildcard_filter, event: c2::events::evt417::event },
    EvCase { contract: 2, name: "Evt418", camel: "Evt418", parse: p418, filter: f418, wildcard: c2::events::evt418::wildcard_filter, event: c2::events::evt418::event },
    EvCase { contract: 2, name: "Evt419", camel: "Evt419", parse: p419, filter: f419, wildcard: c2::events::evt419::wildcard_filter, event: c2::events::evt419::event },
    EvCase { contract: 2, name: "Evt420", camel: "Evt420", parse: p420, filter: f420, wildcard: c2::events::evt420::wildcard_filter, event: c2::events::evt420::event },
    EvCase { contract: 2, name: "Evt421", camel: "Evt421", parse: p421, filter: f421, wildcard: c2::events::evt421::wildcard_filter, event: c2::events::evt421::event },
    EvCase { contract: 2, name: "Evt422", camel: "Evt422", parse: p422, filter: f422, wildcard: c2::events::evt422::wildcard_filter, event: c2::events::evt422::event },
    EvCase { contract: 2, name: "Evt423", camel: "Evt423", parse: p423, filter: f423, wildcard: c2::events::evt423::wildcard_filter, event: c2::events::evt423::event },
    EvCase { contract: 2, name: "Evt424", camel: "Evt424", parse: p424, filter: f424, wildcard: c2::events::evt424::wildcard_filter, event: c2::events::evt424::event },
    EvCase { contract: 2, name: "Evt425", camel: "Evt425", parse: p425, filter: f425, wildcard: c2::events::evt425::wildcard_filter, event: c2::events::evt425::event },
    EvCase { contract: 2, name: "Evt426", camel: "Evt426", parse: p426, filter: f426, wildcard: c2::events::evt426::wildcard_filter, event: c2::events::evt426::event },
    EvCase { contract: 2, name: "Evt427", camel: "Evt427", parse: p427, filter: f427, wildcard: c2::events::evt427::wildcard_filter, event: c2::events::evt427::event },
    EvCase { contract: 2, name: "Evt428", camel: "Evt428", parse: p428, filter: f428, wildcard: c2::events::evt428::wildcard_filter, event: c2::events::evt428::event },
    EvCase { contract: 2, name: "Evt429", camel: "Evt429", parse: p429, filter: f429, wildcard: c2::events::evt429::wildcard_filter, event: c2::events::evt429::event },
    EvCase { contract: 2, name: "Evt430", camel: "Evt430", parse: p430, filter: f430, wildcard: c2::events::evt430::wildcard_filter, event: c2::events::evt430::event },
    EvCase { contract: 2, name: "Evt431", camel: "Evt431", parse: p431, filter: f431, wildcard: c2::events::evt431::wildcard_filter, event: c2::events::evt431::event },
    EvCase { contract: 2, name: "Evt432", camel: "Evt432", parse: p432, filter: f432, wildcard: c2::events::evt432::wildcard_filter, event: c2::events::evt432::event },
    EvCase { contract: 2, name: "Evt433", camel: "Evt433", parse: p433, filter: f433, wildcard: c2::events::evt433::wildcard_filter, event: c2::events::evt433::event },
    EvCase { contract: 2, name: "Evt434", camel: "Evt434", parse: p434, filter: f434, wildcard: c2::events::evt434::wildcard_filter, event: c2::events::evt434::event },
    EvCase { contract: 2, name: "Evt435", camel: "Evt435", parse: p435, filter: f435, wildcard: c2::events::evt435::wildcard_filter, event: c2::events::evt435::event },
    EvCase { contract: 2, name: "Evt436", camel: "Evt436", parse: p436, filter: f436, wildcard: c2::events::evt436::wildcard_filter, event: c2::events::evt436::event },
    EvCase { contract: 2, name: "Evt437", camel: "Evt437", parse: p437, filter: f437, wildcard: c2::events::evt437::wildcard_filter, event: c2::events::evt437::event },
    EvCase { contract: 2, name: "Evt438", camel: "Evt438", parse: p438, filter: f438, wildcard: c2::events::evt438::wildcard_filter, event: c2::events::evt438::event },
    EvCase { contract: 2, name: "Evt439", camel: "Evt439", parse: p439, filter: f439, wildcard: c2::events::evt439::wildcard_filter, event: c2::events::evt439::event },
    EvCase { contract: 2, name: "Evt440", camel: "Evt440", parse: p440, filter: f440, wildcard: c2::events::evt440::wildcard_filter, event: c2::events::evt440::event },
    EvCase { contract: 2, name: "Evt441", camel: "Evt441", parse: p441, filter: f441, wildcard: c2::events::evt441::wildcard_filter, event: c2::events::evt441::event },
    EvCase { contract: 2, name: "Evt442", camel: "Evt442", parse: p442, filter: f442, wildcard: c2::events::evt442::wildcard_filter, event: c2::events::evt442::event },
    EvCase { contract: 2, name: "Evt443", camel: "Evt443", parse: p443, filter: f443, wildcard: c2::events::evt443::wildcard_filter, event: c2::events::evt443::event },
    EvCase { contract: 2, name: "Evt444", camel: "Evt444", parse: p444, filter: f444, wildcard: c2::events::evt444::wildcard_filter, event: c2::events::evt444::event },
    EvCase { contract: 2, name: "Evt445", camel: "Evt445", parse: p445, filter: f445, wildcard: c2::events::evt445::wildcard_filter, event: c2::events::evt445::event },
    EvCase { contract: 2, name: "Evt446", camel: "Evt446", parse: p446, filter: f446, wildcard: c2::events::evt446::wildcard_filter, event: c2::events::evt446::event },
    EvCase { contract: 2, name: "Evt447", camel: "Evt447", parse: p447, filter: f447, wildcard: c2::events::evt447::wildcard_filter, event: c2::events::evt447::event },
    EvCase { contract: 2, name: "Evt448", camel: "Evt448", parse: p448, filter: f448, wildcard: c2::events::evt448::wildcard_filter, event: c2::events::evt448::event },
    EvCase { contract: 2, name: "Evt449", camel: "Evt449", parse: p449, filter: f449, wildcard: c2::events::evt449::wildcard_filter, event: c2::events::evt449::event },
    EvCase { contract: 2, name: "Evt450", camel: "Evt450", parse: p450, filter: f450, wildcard: c2::events::evt450::wildcard_filter, event: c2::events::evt450::event },
    EvCase { contract: 2, name: "Evt451", camel: "Evt451", parse: p451, filter: f451, wildcard: c2::events::evt451::wildcard_filter, event: c2::events::evt451::event },
    EvCase { contract: 2, name: "Evt452", camel: "Evt452", parse: p452, filter: f452, wildcard: c2::events::evt452::wildcard_filter, event: c2::events::evt452::event },
    EvCase { contract: 2, name: "Evt453", camel: "Evt453", parse: p453, filter: f453, wildcard: c2::events::evt453::wildcard_filter, event: c2::events::evt453::event },
    EvCase { contract: 2, name: "Evt454", camel: "Evt454", parse: p454, filter: f454, wildcard: c2::events::evt454::wildcard_filter, event: c2::events::evt454::event },
    EvCase { contract: 2, name: "Evt455", camel: "Evt455", parse: p455, filter: f455, wildcard: c2::events::evt455::wildcard_filter, event: c2::events::evt455::event },
    EvCase { contract: 2, name: "Evt456", camel: "Evt456", parse: p456, filter: f456, wildcard: c2::events::evt456::wildcard_filter, event: c2::events::evt456::event },
    EvCase { contract: 2, name: "Evt457", camel: "Evt457", parse: p457, filter: f457, wildcard: c2::events::evt457::wildcard_filter, event: c2::events::evt457::event },
    EvCase { contract: 2, name: "Evt458", camel: "Evt458", parse: p458, filter: f458, wildcard: c2::events::evt458::wildcard_filter, event: c2::events::evt458::event },
    EvCase { contract: 2, name: "Evt459", camel: "Evt459", parse: p459, filter: f459, wildcard: c2::events::evt459::wildcard_filter, event: c2::events::evt459::event },
    EvCase { contract: 2, name: "Evt460", camel: "Evt460", parse: p460, filter: f460, wildcard: c2::events::evt460::wildcard_filter, event: c2::events::evt460::event },
    EvCase { contract: 2, name: "Evt461", camel: "Evt461", parse: p461, filter: f461, wildcard: c2::events::evt461::wildcard_filter, event: c2::events::evt461::event },
    EvCase { contract: 2, name: "Evt462", camel: "Evt462", parse: p462, filter: f462, wildcard: c2::events::evt462::wildcard_filter, event: c2::events::evt462::event },
    EvCase { contract: 2, name: "Evt463", camel: "Evt463", parse: p463, filter: f463, wildcard: c2::events::evt463::wildcard_filter, event: c2::events::evt463::event },
    EvCase { contract: 2, name: "Evt464", camel: "Evt464", parse: p464, filter: f464, wildcard: c2::events::evt464::wildcard_filter, event: c2::events::evt464::event },
    EvCase { contract: 2, name: "Evt465", camel: "Evt465", parse: p465, filter: f465, wildcard: c2::events::evt465::wildcard_filter, event: c2::events::evt465::event },
    EvCase { contract: 2, name: "Evt466", camel: "Evt466", parse: p466, filter: f466, wildcard: c2::events::evt466::wildcard_filter, event: c2::events::evt466::event },
    EvCase { contract: 2, name: "Evt467", camel: "Evt467", parse: p467, filter: f467, wildcard: c2::events::evt467::wildcard_filter, event: c2::events::evt467::event },
    EvCase { contract: 2, name: "Evt468", camel: "Evt468", parse: p468, filter: f468, wildcard: c2::events::evt468::wildcard_filter, event: c2::events::evt468::event },
    EvCase { contract: 2, name: "Evt469", camel: "Evt469", parse: p469, filter: f469, wildcard: c2::events::evt469::wildcard_filter, event: c2::events::evt469::event },
    EvCase { contract: 2, name: "Evt470", camel: "Evt470", parse: p470, filter: f470, wildcard: c2::events::evt470::wildcard_filter, event: c2::events::evt470::event },
    EvCase { contract: 2, name: "Evt471", camel: "Evt471", parse: p471, filter: f471, wildcard: c2::events::evt471::wildcard_filter, event: c2::events::evt471::event },
    EvCase { contract: 2, name: "Evt472", camel: "Evt472", parse: p472, filter: f472, wildcard: c2::events::evt472::wildcard_filter, event: c2::events::evt472::event },
    EvCase { contract: 2, name: "Evt473", camel: "Evt473", parse: p473, filter: f473, wildcard: c2::events::evt473::wildcard_filter, event: c2::events::evt473::event },
    EvCase { contract: 2, name: "Evt474", camel: "Evt474", parse: p474, filter: f474, wildcard: c2::events::evt474::wildcard_filter, event: c2::events::evt474::event },
    EvCase { contract: 2, name: "Evt475", camel: "Evt475", parse: p475, filter: f475, wildcard: c2::events::evt475::wildcard_filter, event: c2::events::evt475::event },
    EvCase { contract: 2, name: "Evt476", camel: "Evt476", parse: p476, filter: f476, wildcard: c2::events::evt476::wildcard_filter, event: c2::events::evt476::event },
    EvCase { contract: 2, name: "Evt477", camel: "Evt477", parse: p477, filter: f477, wildcard: c2::events::evt477::wildcard_filter, event: c2::events::evt477::event },
    EvCase { contract: 2, name: "Evt478", camel: "Evt478", parse: p478, filter: f478, wildcard: c2::events::evt478::wildcard_filter, event: c2::events::evt478::event },
    EvCase { contract: 2, name: "Evt479", camel: "Evt479", parse: p479, filter: f479, wildcard: c2::events::evt479::wildcard_filter, event: c2::events::evt479::event },
    EvCase { contract: 2, name: "Evt480", camel: "Evt480", parse: p480, filter: f480, wildcard: c2::events::evt480::wildcard_filter, event: c2::events::evt480::event },
    EvCase { contract: 2, name: "Evt481", camel: "Evt481", parse: p481, filter: f481, wildcard: c2::events::evt481::wildcard_filter, event: c2::events::evt481::event },
    EvCase { contract: 2, name: "Evt482", camel: "Evt482", parse: p482, filter: f482, wildcard: c2::events::evt482::wildcard_filter, event: c2::events::evt482::event },
    EvCase { contract: 2, name: "Evt483", camel: "Evt483", parse: p483, filter: f483, wildcard: c2::events::evt483::wildcard_filter, event: c2::events::evt483::event },
    EvCase { contract: 2, name: "Evt484", camel: "Evt484", parse: p484, filter: f484, wildcard: c2::events::evt484::wildcard_filter, event: c2::events::evt484::event },
    EvCase { contract: 2, name: "Evt485", camel: "Evt485", parse: p485, filter: f485, wildcard: c2::events::evt485::wildcard_filter, event: c2::events::evt485::event },
    EvCase { contract: 2, name: "Evt486", camel: "Evt486", parse: p486, filter: f486, wildcard: c2::events::evt486::wildcard_filter, event: c2::events::evt486::event },
    EvCase { contract: 2, name: "Evt487", camel: "Evt487", parse: p487, filter: f487, wildcard: c2::events::evt487::wildcard_filter, event: c2::events::evt487::event },
    EvCase { contract: 2, name: "Evt488", camel: "Evt488", parse: p488, filter: f488, wildcard: c2::events::evt488::wildcard_filter, event: c2::events::evt488::event },
    EvCase { contract: 2, name: "Evt489", camel: "Evt489", parse: p489, filter: f489, wildcard: c2::events::evt489::wildcard_filter, event: c2::events::evt489::event },
    EvCase { contract: 2, name: "Evt490", camel: "Evt490", parse: p490, filter: f490, wildcard: c2::events::evt490::wildcard_filter, event: c2::events::evt490::event },
    EvCase { contract: 2, name: "Evt491", camel: "Evt491", parse: p491, filter: f491, wildcard: c2::events::evt491::wildcard_filter, event: c2::events::evt491::event },
    EvCase { contract: 2, name: "Evt492", camel: "Evt492", parse: p492, filter: f492, wildcard: c2::events::evt492::wildcard_filter, event: c2::events::evt492::event },
    EvCase { contract: 2, name: "Evt493", camel: "Evt493", parse: p493, filter: f493, wildcard: c2::events::evt493::wildcard_filter, event: c2::events::evt493::event },
    EvCase { contract: 2, name: "Evt494", camel: "Evt494", parse: p494, filter: f494, wildcard: c2::events::evt494::wildcard_filter, event: c2::events::evt494::event },
    EvCase { contract: 2, name: "Evt495", camel: "Evt495", parse: p495, filter: f495, wildcard: c2::events::evt495::wildcard_filter, event: c2::events::evt495::event },
    EvCase { contract: 2, name: "Evt496", camel: "Evt496", parse: p496, filter: f496, wildcard: c2::events::evt496::wildcard_filter, event: c2::events::evt496::event },
    EvCase { contract: 2, name: "Evt497", camel: "Evt497", parse: p497, filter: f497, wildcard: c2::events::evt497::wildcard_filter, event: c2::events::evt497::event },
    EvCase { contract: 2, name: "Evt498", camel: "Evt498", parse: p498, filter: f498, wildcard: c2::events::evt498::wildcard_filter, event: c2::events::evt498::event },
    EvCase { contract: 2, name: "Evt499", camel: "Evt499", parse: p499, filter: f499, wildcard: c2::events::evt499::wildcard_filter, event: c2::events::evt499::event },
    EvCase { contract: 2, name: "Evt500", camel: "Evt500", parse: p500, filter: f500, wildcard: c2::events::evt500::wildcard_filter, event: c2::events::evt500::event },
    EvCase { contract: 2, name: "Evt501", camel: "Evt501", parse: p501, filter: f501, wildcard: c2::events::evt501::wildcard_filter, event: c2::events::evt501::event },
    EvCase { contract: 2, name: "Evt502", camel: "Evt502", parse: p502, filter: f502, wildcard: c2::events::evt502::wildcard_filter, event: c2::events::evt502::event },
    EvCase { contract: 2, name: "Evt503", camel: "Evt503", parse: p503, filter: f503, wildcard: c2::events::evt503::wildcard_filter, event: c2::events::evt503::event },
    EvCase { contract: 2, name: "Evt504", camel: "Evt504", parse: p504, filter: f504, wildcard: c2::events::evt504::wildcard_filter, event: c2::events::evt504::event },
    EvCase { contract: 2, name: "Evt505", camel: "Evt505", parse: p505, filter: f505, wildcard: c2::events::evt505::wildcard_filter, event: c2::events::evt505::event },
    EvCase { contract: 2, name: "Evt506", camel: "Evt506", parse: p506, filter: f506, wildcard: c2::events::evt506::wildcard_filter, event: c2::events::evt506::event },
    EvCase { contract: 2, name: "Evt507", camel: "Evt507", parse: p507, filter: f507, wildcard: c2::events::evt507::wildcard_filter, event: c2::events::evt507::event },
    EvCase { contract: 2, name: "Evt508", camel: "Evt508", parse: p508, filter: f508, wildcard: c2::events::evt508::wildcard_filter, event: c2::events::evt508::event },
    EvCase { contract: 2, name: "Evt509", camel: "Evt509", parse: p509, filter: f509, wildcard: c2::events::evt509::wildcard_filter, event: c2::events::evt509::event },
    EvCase { contract: 2, name: "Evt510", camel: "Evt510", parse: p510, filter: f510, wildcard: c2::events::evt510::wildcard_filter, event: c2::events::evt510::event },
    EvCase { contract: 2, name: "Evt511", camel: "Evt511", parse: p511, filter: f511, wildcard: c2::events::evt511::wildcard_filter, event: c2::events::evt511::event },
    EvCase { contract: 2, name: "Evt512", camel: "Evt512", parse: p512, filter: f512, wildcard: c2::events::evt512::wildcard_filter, event: c2::events::evt512::event },
    EvCase { contract: 2, name: "Evt513", camel: "Evt513", parse: p513, filter: f513, wildcard: c2::events::evt513::wildcard_filter, event: c2::events::evt513::event },
    EvCase { contract: 2, name: "Evt514", camel: "Evt514", parse: p514, filter: f514, wildcard: c2::events::evt514::wildcard_filter, event: c2::events::evt514::event },
    EvCase { contract: 2, name: "Evt515", camel: "Evt515", parse: p515, filter: f515, wildcard: c2::events::evt515::wildcard_filter, event: c2::events::evt515::event },
    EvCase { contract: 2, name: "Evt516", camel: "Evt516", parse: p516, filter: f516, wildcard: c2::events::evt516::wildcard_filter, event: c2::events::evt516::event },
    EvCase { contract: 2, name: "Evt517", camel: "Evt517", parse: p517, filter: f517, wildcard: c2::events::evt517::wildcard_filter, event: c2::events::evt517::event },
    EvCase { contract: 2, name: "Evt518", camel: "Evt518", parse: p518, filter: f518, wildcard: c2::events::evt518::wildcard_filter, event: c2::events::evt518::event },
    EvCase { contract: 2, name: "Evt519", camel: "Evt519", parse: p519, filter: f519, wildcard: c2::events::evt519::wildcard_filter, event: c2::events::evt519::event },
    EvCase { contract: 2, name: "Evt520", camel: "Evt520", parse: p520, filter: f520, wildcard: c2::events::evt520::wildcard_filter, event: c2::events::evt520::event },
    EvCase { contract: 2, name: "Evt521", camel: "Evt521", parse: p521, filter: f521, wildcard: c2::events::evt521::wildcard_filter, event: c2::events::evt521::event },
    EvCase { contract: 2, name: "Evt522", camel: "Evt522", parse: p522, filter: f522, wildcard: c2::events::evt522::wildcard_filter, event: c2::events::evt522::event },
    EvCase { contract: 2, name: "Evt523", camel: "Evt523", parse: p523, filter: f523, wildcard: c2::events::evt523::wildcard_filter, event: c2::events::evt523::event },
    EvCase { contract: 2, name: "Evt524", camel: "Evt524", parse: p524, filter: f524, wildcard: c2::events::evt524::wildcard_filter, event: c2::events::evt524::event },
    EvCase { contract: 2, name: "Evt525", camel: "Evt525", parse: p525, filter: f525, wildcard: c2::events::evt525::wildcard_filter, event: c2::events::evt525::event },
    EvCase { contract: 2, name: "Evt526", camel: "Evt526", parse: p526, filter: f526, wildcard: c2::events::evt526::wildcard_filter, event: c2::events::evt526::event },
    EvCase { contract: 2, name: "Evt527", camel: "Evt527", parse: p527, filter: f527, wildcard: c2::events::evt527::wildcard_filter, event: c2::events::evt527::event },
    EvCase { contract: 2, name: "Evt528", camel: "Evt528", parse: p528, filter: f528, wildcard: c2::events::evt528::wildcard_filter, event: c2::events::evt528::event },
    EvCase { contract: 2, name: "Evt529", camel: "Evt529", parse: p529, filter: f529, wildcard: c2::events::evt529::wildcard_filter, event: c2::events::evt529::event },
    EvCase { contract: 2, name: "Evt530", camel: "Evt530", parse: p530, filter: f530, wildcard: c2::events::evt530::wildcard_filter, event: c2::events::evt530::event },
    EvCase { contract: 2, name: "Evt531", camel: "Evt531", parse: p531, filter: f531, wildcard: c2::events::evt531::wildcard_filter, event: c2::events::evt531::event },
    EvCase { contract: 3, name: "Evt532", camel: "Evt532", parse: p532, filter: f532, wildcard: c3::events::evt532::wildcard_filter, event: c3::events::evt532::event },
    EvCase { contract: 3, name: "Evt533", camel: "Evt533", parse: p533, filter: f533, wildcard: c3::events::evt533::wildcard_filter, event: c3::events::evt533::event },
    EvCase { contract: 3, name: "Evt534", camel: "Evt534", parse: p534, filter: f534, wildcard: c3::events::evt534::wildcard_filter, event: c3::events::evt534::event },
    EvCase { contract: 3, name: "Evt535", camel: "Evt535", parse: p535, filter: f535, wildcard: c3::events::evt535::wildcard_filter, event: c3::events::evt535::event },
    EvCase { contract: 3, name: "Evt536", camel: "Evt536", parse: p536, filter: f536, wildcard: c3::events::evt536::wildcard_filter, event: c3::events::evt536::event },
    EvCase { contract: 3, name: "Evt537", camel: "Evt537", parse: p537, filter: f537, wildcard: c3::events::evt537::wildcard_filter, event: c3::events::evt537::event },
    EvCase { contract: 3, name: "Evt538", camel: "Evt538", parse: p538, filter: f538, wildcard: c3::events::evt538::wildcard_filter, event: c3::events::evt538::event },
    EvCase { contract: 3, name: "Evt539", camel: "Evt539", parse: p539, filter: f539, wildcard: c3::events::evt539::wildcard_filter, event: c3::events::evt539::event },
    EvCase { contract: 3, name: "Evt540", camel: "Evt540", parse: p540, filter: f540, wildcard: c3::events::evt540::wildcard_filter, event: c3::events::evt540::event },
    EvCase { contract: 3, name: "Evt541", camel: "Evt541", parse: p541, filter: f541, wildcard: c3::events::evt541::wildcard_filter, event: c3::events::evt541::event },
    EvCase { contract: 3, name: "Evt542", camel: "Evt542", parse: p542, filter: f542, wildcard: c3::events::evt542::wildcard_filter, event: c3::events::evt542::event },
    EvCase { contract: 3, name: "Evt543", camel: "Evt543", parse: p543, filter: f543, wildcard: c3::events::evt543::wildcard_filter, event: c3::events::evt543::event },
    EvCase { contract: 3, name: "Evt544", camel: "Evt544", parse: p544, filter: f544, wildcard: c3::events::evt544::wildcard_filter, event: c3::events::evt544::event },
    EvCase { contract: 3, name: "Evt545", camel: "Evt545", parse: p545, filter: f545, wildcard: c3::events::evt545::wildcard_filter, event: c3::events::evt545::event },
    EvCase { contract: 3, name: "Evt546", camel: "Evt546", parse: p546, filter: f546, wildcard: c3::events::evt546::wildcard_filter, event: c3::events::evt546::event },
    EvCase { contract: 3, name: "Evt547", camel: "Evt547", parse: p547, filter: f547, wildcard: c3::events::evt547::wildcard_filter, event: c3::events::evt547::event },
    EvCase { contract: 3, name: "Evt548", camel: "Evt548", parse: p548, filter: f548, wildcard: c3::events::evt548::wildcard_filter, event: c3::events::evt548::event },
    EvCase { contract: 3, name: "Evt549", camel: "Evt549", parse: p549, filter: f549, wildcard: c3::events::evt549::wildcard_filter, event: c3::events::evt549::event },
    EvCase { contract: 3, name: "Evt550", camel: "Evt550", parse: p550, filter: f550, wildcard: c3::events::evt550::wildcard_filter, event: c3::events::evt550::event },
    EvCase { contract: 3, name: "Evt551", camel: "Evt551", parse: p551, filter: f551, wildcard: c3::events::evt551::wildcard_filter, event: c3::events::evt551::event },
    EvCase { contract: 3, name: "Evt552", camel: "Evt552", parse: p552, filter: f552, wildcard: c3::events::evt552::wildcard_filter, event: c3::events::evt552::event },
    EvCase { contract: 3, name: "Evt553", camel: "Evt553", parse: p553, filter: f553, wildcard: c3::events::evt553::wildcard_filter, event: c3::events::evt553::event },
    EvCase { contract: 3, name: "Evt554", camel: "Evt554", parse: p554, filter: f554, wildcard: c3::events::evt554::wildcard_filter, event: c3::events::evt554::event },
    EvCase { contract: 3, name: "Evt555", camel: "Evt555", parse: p555, filter: f555, wildcard: c3::events::evt555::wildcard_filter, event: c3::events::evt555::event },
    EvCase { contract: 3, name: "Evt556", camel: "Evt556", parse: p556, filter: f556, wildcard: c3::events::evt556::wildcard_filter, event: c3::events::evt556::event },
    EvCase { contract: 3, name: "Evt557", camel: "Evt557", parse: p557, filter: f557, wildcard: c3::events::evt557::wildcard_filter, event: c3::events::evt557::event },
    EvCase { contract: 3, name: "Evt558", camel: "Evt558", parse: p558, filter: f558, wildcard: c3::events::evt558::wildcard_filter, event: c3::events::evt558::event },
    EvCase { contract: 3, name: "Evt559", camel: "Evt559", parse: p559, filter: f559, wildcard: c3::events::evt559::wildcard_filter, event: c3::events::evt559::event },
    EvCase { contract: 3, name: "Evt560", camel: "Evt560", parse: p560, filter: f560, wildcard: c3::events::evt560::wildcard_filter, event: c3::events::evt560::event },
    EvCase { contract: 3, name: "Evt561", camel: "Evt561", parse: p561, filter: f561, wildcard: c3::events::evt561::wildcard_filter, event: c3::events::evt561::event },
    EvCase { contract: 3, name: "Evt562", camel: "Evt562", parse: p562, filter: f562, wildcard: c3::events::evt562::wildcard_filter, event: c3::events::evt562::event },
    EvCase { contract: 3, name: "Evt563", camel: "Evt563", parse: p563, filter: f563, wildcard: c3::events::evt563::wildcard_filter, event: c3::events::evt563::event },
    EvCase { contract: 3, name: "Evt564", camel: "Evt564", parse: p564, filter: f564, wildcard: c3::events::evt564::wildcard_filter, event: c3::events::evt564::event },
    EvCase { contract: 3, name: "Evt565", camel: "Evt565", parse: p565, filter: f565, wildcard: c3::events::evt565::wildcard_filter, event: c3::events::evt565::event },
    EvCase { contract: 3, name: "Evt566", camel: "Evt566", parse: p566, filter: f566, wildcard: c3::events::evt566::wildcard_filter, event: c3::events::evt566::event },
    EvCase { contract: 3, name: "Evt567", camel: "Evt567", parse: p567, filter: f567, wildcard: c3::events::evt567::wildcard_filter, event: c3::events::evt567::event },
    EvCase { contract: 3, name: "Evt568", camel: "Evt568", parse: p568, filter: f568, wildcard: c3::events::evt568::wildcard_filter, event: c3::events::evt568::event },
    EvCase { contract: 3, name: "Evt569", camel: "Evt569", parse: p569, filter: f569, wildcard: c3::events::evt569::wildcard_filter, event: c3::events::evt569::event },
    EvCase { contract: 3, name: "Evt570", camel: "Evt570", parse: p570, filter: f570, wildcard: c3::events::evt570::wildcard_filter, event: c3::events::evt570::event },
    EvCase { contract: 3, name: "Evt571", camel: "Evt571", parse: p571, filter: f571, wildcard: c3::events::evt571::wildcard_filter, event: c3::events::evt571::event },
    EvCase { contract: 3, name: "Evt572", camel: "Evt572", parse: p572, filter: f572, wildcard: c3::events::evt572::wildcard_filter, event: c3::events::evt572::event },
    EvCase { contract: 3, name: "Evt573", camel: "Evt573", parse: p573, filter: f573, wildcard: c3::events::evt573::wildcard_filter, event: c3::events::evt573::event },
    EvCase { contract: 3, name: "Evt574", camel: "Evt574", parse: p574, filter: f574, wildcard: c3::events::evt574::wildcard_filter, event: c3::events::evt574::event },
    EvCase { contract: 3, name: "Evt575", camel: "Evt575", parse: p575, filter: f575, wildcard: c3::events::evt575::wildcard_filter, event: c3::events::evt575::event },
    EvCase { contract: 3, name: "Evt576", camel: "Evt576", parse: p576, filter: f576, wildcard: c3::events::evt576::wildcard_filter, event: c3::events::evt576::event },
    EvCase { contract: 3, name: "Evt577", camel: "Evt577", parse: p577, filter: f577, wildcard: c3::events::evt577::wildcard_filter, event: c3::events::evt577::event },
    EvCase { contract: 3, name: "Evt578", camel: "Evt578", parse: p578, filter: f578, wildcard: c3::events::evt578::wildcard_filter, event: c3::events::evt578::event },
    EvCase { contract: 3, name: "Evt579", camel: "Evt579", parse: p579, filter: f579, wildcard: c3::events::evt579::wildcard_filter, event: c3::events::evt579::event },
    EvCase { contract: 3, name: "Evt580", camel: "Evt580", parse: p580, filter: f580, wildcard: c3::events::evt580::wildcard_filter, event: c3::events::evt580::event },
    EvCase { contract: 3, name: "Evt581", camel: "Evt581", parse: p581, filter: f581, wildcard: c3::events::evt581::wildcard_filter, event: c3::events::evt581::event },
    EvCase { contract: 3, name: "Evt582", camel: "Evt582", parse: p582, filter: f582, wildcard: c3::events::evt582::wildcard_filter, event: c3::events::evt582::event },
    EvCase { contract: 3, name: "Evt583", camel: "Evt583", parse: p583, filter: f583, wildcard: c3::events::evt583::wildcard_filter, event: c3::events::evt583::event },
    EvCase { contract: 3, name: "Evt584", camel: "Evt584", parse: p584, filter: f584, wildcard: c3::events::evt584::wildcard_filter, event: c3::events::evt584::event },
    EvCase { contract: 3, name: "Evt585", camel: "Evt585", parse: p585, filter: f585, wildcard: c3::events::evt585::wildcard_filter, event: c3::events::evt585::event },
    EvCase { contract: 3, name: "Evt586", camel: "Evt586", parse: p586, filter: f586, wildcard: c3::events::evt586::wildcard_filter, event: c3::events::evt586::event },
    EvCase { contract: 3, name: "Evt587", camel: "Evt587", parse: p587, filter: f587, wildcard: c3::events::evt587::wildcard_filter, event: c3::events::evt587::event },
    EvCase { contract: 3, name: "Evt588", camel: "Evt588", parse: p588, filter: f588, wildcard: c3::events::evt588::wildcard_filter, event: c3::events::evt588::event },
    EvCase { contract: 3, name: "Evt589", camel: "Evt589", parse: p589, filter: f589, wildcard: c3::events::evt589::wildcard_filter, event: c3::events::evt589::event },
    EvCase { contract: 3, name: "Evt590", camel: "Evt590", parse: p590, filter: f590, wildcard: c3::events::evt590::wildcard_filter, event: c3::events::evt590::event },
    EvCase { contract: 3, name: "Evt591", camel: "Evt591", parse: p591, filter: f591, wildcard: c3::events::evt591::wildcard_filter, event: c3::events::evt591::event },
    EvCase { contract: 3, name: "Evt592", camel: "Evt592", parse: p592, filter: f592, wildcard: c3::events::evt592::wildcard_filter, event: c3::events::evt592::event },
    EvCase { contract: 3, name: "Evt593", camel: "Evt593", parse: p593, filter: f593, wildcard: c3::events::evt593::wildcard_filter, event: c3::events::evt593::event },
    EvCase { contract: 3, name: "Evt594", camel: "Evt594", parse: p594, filter: f594, wildcard: c3::events::evt594::wildcard_filter, event: c3::events::evt594::event },
    EvCase { contract: 3, name: "Evt595", camel: "Evt595", parse: p595, filter: f595, wildcard: c3::events::evt595::wildcard_filter, event: c3::events::evt595::event },
    EvCase { contract: 3, name: "Evt596", camel: "Evt596", parse: p596, filter: f596, wildcard: c3::events::evt596::wildcard_filter, event: c3::events::evt596::event },
    EvCase { contract: 3, name: "Evt597", camel: "Evt597", parse: p597, filter: f597, wildcard: c3::events::evt597::wildcard_filter, event: c3::events::evt597::event },
    EvCase { contract: 3, name: "Evt598", camel: "Evt598", parse: p598, filter: f598, wildcard: c3::events::evt598::wildcard_filter, event: c3::events::evt598::event },
    EvCase { contract: 3, name: "Evt599", camel: "Evt599", parse: p599, filter: f599, wildcard: c3::events::evt599::wildcard_filter, event: c3::events::evt599::event },
    EvCase { contract: 3, name: "Evt600", camel: "Evt600", parse: p600, filter: f600, wildcard: c3::events::evt600::wildcard_filter, event: c3::events::evt600::event },
    EvCase { contract: 3, name: "Evt601", camel: "Evt601", parse: p601, filter: f601, wildcard: c3::events::evt601::wildcard_filter, event: c3::events::evt601::event },
    EvCase { contract: 3, name: "Evt602", camel: "Evt602", parse: p602, filter: f602, wildcard: c3::events::evt602::wildcard_filter, event: c3::events::evt602::event },
    EvCase { contract: 3, name: "Evt603", camel: "Evt603", parse: p603, filter: f603, wildcard: c3::events::evt603::wildcard_filter, event: c3::events::evt603::event },
    EvCase { contract: 3, name: "Evt604", camel: "Evt604", parse: p604, filter: f604, wildcard: c3::events::evt604::wildcard_filter, event: c3::events::evt604::event },
    EvCase { contract: 3, name: "Evt605", camel: "Evt605", parse: p605, filter: f605, wildcard: c3::events::evt605::wildcard_filter, event: c3::events::evt605::event },
    EvCase { contract: 3, name: "Evt606", camel: "Evt606", parse: p606, filter: f606, wildcard: c3::events::evt606::wildcard_filter, event: c3::events::evt606::event },
    EvCase { contract: 3, name: "Evt607", camel: "Evt607", parse: p607, filter: f607, wildcard: c3::events::evt607::wildcard_filter, event: c3::events::evt607::event },
    EvCase { contract: 3, name: "Evt608", camel: "Evt608", parse: p608, filter: f608, wildcard: c3::events::evt608::wildcard_filter, event: c3::events::evt608::event },
    EvCase { contract: 3, name: "Evt609", camel: "Evt609", parse: p609, filter: f609, wildcard: c3::events::evt609::wildcard_filter, event: c3::events::evt609::event },
    EvCase { contract: 3, name: "Evt610", camel: "Evt610", parse: p610, filter: f610, wildcard: c3::events::evt610::wildcard_filter, event: c3::events::evt610::event },
    EvCase { contract: 3, name: "Evt611", camel: "Evt611", parse: p611, filter: f611, wildcard: c3::events::evt611::wildcard_filter, event: c3::events::evt611::event },
    EvCase { contract: 3, name: "Evt612", camel: "Evt612", parse: p612, filter: f612, wildcard: c3::events::evt612::wildcard_filter, event: c3::events::evt612::event },
    EvCase { contract: 3, name: "Evt613", camel: "Evt613", parse: p613, filter: f613, wildcard: c3::events::evt613::wildcard_filter, event: c3::events::evt613::event },
    EvCase { contract: 3, name: "Evt614", camel: "Evt614", parse: p614, filter: f614, wildcard: c3::events::evt614::wildcard_filter, event: c3::events::evt614::event },
    EvCase { contract: 3, name: "Evt615", camel: "Evt615", parse: p615, filter: f615, wildcard: c3::events::evt615::wildcard_filter, event: c3::events::evt615::event },
    EvCase { contract: 3, name: "Evt616", camel: "Evt616", parse: p616, filter: f616, wildcard: c3::events::evt616::wildcard_filter, event: c3::events::evt616::event },
    EvCase { contract: 3, name: "Evt617", camel: "Evt617", parse: p617, filter: f617, wildcard: c3::events::evt617::wildcard_filter, event: c3::events::evt617::event },
    EvCase { contract: 3, name: "Evt618", camel: "Evt618", parse: p618, filter: f618, wildcard: c3::events::evt618::wildcard_filter, event: c3::events::evt618::event },
    EvCase { contract: 3, name: "Evt619", camel: "Evt619", parse: p619, filter: f619, wildcard: c3::events::evt619::wildcard_filter, event: c3::events::evt619::event },
    EvCase { contract: 3, name: "Evt620", camel: "Evt620", parse: p620, filter: f620, wildcard: c3::events::evt620::wildcard_filter, event: c3::events::evt620::event },
    EvCase { contract: 3, name: "Evt621", camel: "Evt621", parse: p621, filter: f621, wildcard: c3::events::evt621::wildcard_filter, event: c3::events::evt621::event },
    EvCase { contract: 3, name: "Evt622", camel: "Evt622", parse: p622, filter: f622, wildcard: c3::events::evt622::wildcard_filter, event: c3::events::evt622::event },
    EvCase { contract: 3, name: "Evt623", camel: "Evt623", parse: p623, filter: f623, wildcard: c3::events::evt623::wildcard_filter, event: c3::events::evt623::event },
    EvCase { contract: 3, name: "Evt624", camel: "Evt624", parse: p624, filter: f624, wildcard: c3::events::evt624::wildcard_filter, event: c3::events::evt624::event },
    EvCase { contract: 3, name: "Evt625", camel: "Evt625", parse: p625, filter: f625, wildcard: c3::events::evt625::wildcard_filter, event: c3::events::evt625::event },
    EvCase { contract: 3, name: "Evt626", camel: "Evt626", parse: p626, filter: f626, wildcard: c3::events::evt626::wildcard_filter, event: c3::events::evt626::event },
    EvCase { contract: 3, name: "Evt627", camel: "Evt627", parse: p627, filter: f627, wildcard: c3::events::evt627::wildcard_filter, event: c3::events::evt627::event },
    EvCase { contract: 3, name: "Evt628", camel: "Evt628", parse: p628, filter: f628, wildcard: c3::events::evt628::wildcard_filter, event: c3::events::evt628::event },
    EvCase { contract: 3, name: "Evt629", camel: "Evt629", parse: p629, filter: f629, wildcard: c3::events::evt629::wildcard_filter, event: c3::events::evt629::event },
    EvCase { contract: 3, name: "Evt630", camel: "Evt630", parse: p630, filter: f630, wildcard: c3::events::evt630::wildcard_filter, event: c3::events::evt630::event },
    EvCase { contract: 3, name: "Evt631", camel: "Evt631", parse: p631, filter: f631, wildcard: c3::events::evt631::wildcard_filter, event: c3::events::evt631::event },
    EvCase { contract: 3, name: "Evt632", camel: "Evt632", parse: p632, filter: f632, wildcard: c3::events::evt632::wildcard_filter, event: c3::events::evt632::event },
    EvCase { contract: 3, name: "Evt633", camel: "Evt633", parse: p633, filter: f633, wildcard: c3::events::evt633::wildcard_filter, event: c3::events::evt633::event },
    EvCase { contract: 3, name: "Evt634", camel: "Evt634", parse: p634, filter: f634, wildcard: c3::events::evt634::wildcard_filter, event: c3::events::evt634::event },
    EvCase { contract: 3, name: "Evt635", camel: "Evt635", parse: p635, filter: f635, wildcard: c3::events::evt635::wildcard_filter, event: c3::events::evt635::event },
    EvCase { contract: 3, name: "Evt636", camel: "Evt636", parse: p636, filter: f636, wildcard: c3::events::evt636::wildcard_filter, event: c3::events::evt636::event },
    EvCase { contract: 3, name: "Evt637", camel: "Evt637", parse: p637, filter: f637, wildcard: c3::events::evt637::wildcard_filter, event: c3::events::evt637::event },
    EvCase { contract: 3, name: "Evt638", camel: "Evt638", parse: p638, filter: f638, wildcard: c3::events::evt638::wildcard_filter, event: c3::events::evt638::event },
    EvCase { contract: 3, name: "Evt639", camel: "Evt639", parse: p639, filter: f639, wildcard: c3::events::evt639::wildcard_filter, event: c3::events::evt639::event },
    EvCase { contract: 3, name: "Evt640", camel: "Evt640", parse: p640, filter: f640, wildcard: c3::events::evt640::wildcard_filter, event: c3::events::evt640::event },
    EvCase { contract: 3, name: "Evt641", camel: "Evt641", parse: p641, filter: f641, wildcard: c3::events::evt641::wildcard_filter, event: c3::events::evt641::event },
    EvCase { contract: 3, name: "Evt642", camel: "Evt642", parse: p642, filter: f642, wildcard: c3::events::evt642::wildcard_filter, event: c3::events::evt642::event },
    EvCase { contract: 3, name: "Evt643", camel: "Evt643", parse: p643, filter: f643, wildcard: c3::events::evt643::wildcard_filter, event: c3::events::evt643::event },
    EvCase { contract: 3, name: "Evt644", camel: "Evt644", parse: p644, filter: f644, wildcard: c3::events::evt644::wildcard_filter, event: c3::events::evt644::event },
    EvCase { contract: 3, name: "Evt645", camel: "Evt645", parse: p645, filter: f645, wildcard: c3::events::evt645::wildcard_filter, event: c3::events::evt645::event },
    EvCase { contract: 3, name: "Evt646", camel: "Evt646", parse: p646, filter: f646, wildcard: c3::events::evt646::wildcard_filter, event: c3::events::evt646::event },
    EvCase { contract: 3, name: "Evt647", camel: "Evt647", parse: p647, filter: f647, wildcard: c3::events::evt647::wildcard_filter, event: c3::events::evt647::event },
    EvCase { contract: 3, name: "Evt648", camel: "Evt648", parse: p648, filter: f648, wildcard: c3::events::evt648::wildcard_filter, event: c3::events::evt648::event },
    EvCase { contract: 3, name: "Evt649", camel: "Evt649", parse: p649, filter: f649, wildcard: c3::events::evt649::wildcard_filter, event: c3::events::evt649::event },
    EvCase { contract: 3, name: "Evt650", camel: "Evt650", parse: p650, filter: f650, wildcard: c3::events::evt650::wildcard_filter, event: c3::events::evt650::event },
    EvCase { contract: 3, name: "Evt651", camel: "Evt651", parse: p651, filter: f651, wildcard: c3::events::evt651::wildcard_filter, event: c3::events::evt651::event },
    EvCase { contract: 3, name: "Evt652", camel: "Evt652", parse: p652, filter: f652, wildcard: c3::events::evt652::wildcard_filter, event: c3::events::evt652::event },
    EvCase { contract: 3, name: "Evt653", camel: "Evt653", parse: p653, filter: f653, wildcard: c3::events::evt653::wildcard_filter, event: c3::events::evt653::event },
    EvCase { contract: 3, name: "Evt654", camel: "Evt654", parse: p654, filter: f654, wildcard: c3::events::evt654::wildcard_filter, event: c3::events::evt654::event },
    EvCase { contract: 3, name: "Evt655", camel: "Evt655", parse: p655, filter: f655, wildcard: c3::events::evt655::wildcard_filter, event: c3::events::evt655::event },
    EvCase { contract: 3, name: "Evt656", camel: "Evt656", parse: p656, filter: f656, wildcard: c3::events::evt656::wildcard_filter, event: c3::events::evt656::event },
    EvCase { contract: 3, name: "Evt657", camel: "Evt657", parse: p657, filter: f657, wildcard: c3::events::evt657::wildcard_filter, event: c3::events::evt657::event },
    EvCase { contract: 3, name: "Evt658", camel: "Evt658", parse: p658, filter: f658, wildcard: c3::events::evt658::wildcard_filter, event: c3::events::evt658::event },
    EvCase { contract: 3, name: "Evt659", camel: "Evt659", parse: p659, filter: f659, wildcard: c3::events::evt659::wildcard_filter, event: c3::events::evt659::event },
    EvCase { contract: 3, name: "Evt660", camel: "Evt660", parse: p660, filter: f660, wildcard: c3::events::evt660::wildcard_filter, event: c3::events::evt660::event },
    EvCase { contract: 3, name: "Evt661", camel: "Evt661", parse: p661, filter: f661, wildcard: c3::events::evt661::wildcard_filter, event: c3::events::evt661::event },
    EvCase { contract: 3, name: "Evt662", camel: "Evt662", parse: p662, filter: f662, wildcard: c3::events::evt662::wildcard_filter, event: c3::events::evt662::event },
    EvCase { contract: 3, name: "Evt663", camel: "Evt663", parse: p663, filter: f663, wildcard: c3::events::evt663::wildcard_filter, event: c3::events::evt663::event },
    EvCase { contract: 3, name: "Evt664", camel: "Evt664", parse: p664, filter: f664, wildcard: c3::events::evt664::wildcard_filter, event: c3::events::evt664::event },
    EvCase { contract: 3, name: "Evt665", camel: "Evt665", parse: p665, filter: f665, wildcard: c3::events::evt665::wildcard_filter, event: c3::events::evt665::event },
    EvCase { contract: 3, name: "Evt666", camel: "Evt666", parse: p666, filter: f666, wildcard: c3::events::evt666::wildcard_filter, event: c3::events::evt666::event },
    EvCase { contract: 3, name: "Evt667", camel: "Evt667", parse: p667, filter: f667, wildcard: c3::events::evt667::wildcard_filter, event: c3::events::evt667::event },
    EvCase { contract: 3, name: "Evt668", camel: "Evt668", parse: p668, filter: f668, wildcard: c3::events::evt668::wildcard_filter, event: c3::events::evt668::event },
    EvCase { contract: 3, name: "Evt669", camel: "Evt669", parse: p669, filter: f669, wildcard: c3::events::evt669::wildcard_filter, event: c3::events::evt669::event },
    EvCase { contract: 3, name: "Evt670", camel: "Evt670", parse: p670, filter: f670, wildcard: c3::events::evt670::wildcard_filter, event: c3::events::evt670::event },
    EvCase { contract: 3, name: "Evt671", camel: "Evt671", parse: p671, filter: f671, wildcard: c3::events::evt671::wildcard_filter, event: c3::events::evt671::event },
    EvCase { contract: 3, name: "Evt672", camel: "Evt672", parse: p672, filter: f672, wildcard: c3::events::evt672::wildcard_filter, event: c3::events::evt672::event },
    EvCase { contract: 3, name: "Evt673", camel: "Evt673", parse: p673, filter: f673, wildcard: c3::events::evt673::wildcard_filter, event: c3::events::evt673::event },
    EvCase { contract: 3, name: "Evt674", camel: "Evt674", parse: p674, filter: f674, wildcard: c3::events::evt674::wildcard_filter, event: c3::events::evt674::event },
    EvCase { contract: 3, name: "Evt675", camel: "Evt675", parse: p675, filter: f675, wildcard: c3::events::evt675::wildcard_filter, event: c3::events::evt675::event },
    EvCase { contract: 3, name: "Evt676", camel: "Evt676", parse: p676, filter: f676, wildcard: c3::events::evt676::wildcard_filter, event: c3::events::evt676::event },
    EvCase { contract: 3, name: "Evt677", camel: "Evt677", parse: p677, filter: f677, wildcard: c3::events::evt677::wildcard_filter, event: c3::events::evt677::event },
    EvCase { contract: 3, name: "Evt678", camel: "Evt678", parse: p678, filter: f678, wildcard: c3::events::evt678::wildcard_filter, event: c3::events::evt678::event },
    EvCase { contract: 3, name: "Evt679", camel: "Evt679", parse: p679, filter: f679, wildcard: c3::events::evt679::wildcard_filter, event: c3::events::evt679::event },
    EvCase { contract: 3, name: "Evt680", camel: "Evt680", parse: p680, filter: f680, wildcard: c3::events::evt680::wildcard_filter, event: c3::events::evt680::event },
    EvCase { contract: 3, name: "Evt681", camel: "Evt681", parse: p681, filter: f681, wildcard: c3::events::evt681::wildcard_filter, event: c3::events::evt681::event },
    EvCase { contract: 3, name: "Evt682", camel: "Evt682", parse: p682, filter: f682, wildcard: c3::events::evt682::wildcard_filter, event: c3::events::evt682::event },
    EvCase { contract: 3, name: "Evt683", camel: "Evt683", parse: p683, filter: f683, wildcard: c3::events::evt683::wildcard_filter, event: c3::events::evt683::event },
    EvCase { contract: 3, name: "Evt684", camel: "Evt684", parse: p684, filter: f684, wildcard: c3::events::evt684::wildcard_filter, event: c3::events::evt684::event },
    EvCase { contract: 3, name: "Evt685", camel: "Evt685", parse: p685, filter: f685, wildcard: c3::events::evt685::wildcard_filter, event: c3::events::evt685::event },
    EvCase { contract: 3, name: "Evt686", camel: "Evt686", parse: p686, filter: f686, wildcard: c3::events::evt686::wildcard_filter, event: c3::events::evt686::event },
    EvCase { contract: 3, name: "Evt687", camel: "Evt687", parse: p687, filter: f687, wildcard: c3::events::evt687::wildcard_filter, event: c3::events::evt687::event },
    EvCase { contract: 3, name: "Evt688", camel: "Evt688", parse: p688, filter: f688, wildcard: c3::events::evt688::wildcard_filter, event: c3::events::evt688::event },
    EvCase { contract: 3, name: "Evt689", camel: "Evt689", parse: p689, filter: f689, wildcard: c3::events::evt689::wildcard_filter, event: c3::events::evt689::event },
    EvCase { contract: 3, name: "Evt690", camel: "Evt690", parse: p690, filter: f690, wildcard: c3::events::evt690::wildcard_filter, event: c3::events::evt690::event },
    EvCase { contract: 3, name: "Evt691", camel: "Evt691", parse: p691, filter: f691, wildcard: c3::events::evt691::wildcard_filter, event: c3::events::evt691::event },
    EvCase { contract: 3, name: "Evt692", camel: "Evt692", parse: p692, filter: f692, wildcard: c3::events::evt692::wildcard_filter, event: c3::events::evt692::event },
    EvCase { contract: 3, name: "Evt693", camel: "Evt693", parse: p693, filter: f693, wildcard: c3::events::evt693::wildcard_filter, event: c3::events::evt693::event },
    EvCase { contract: 3, name: "Evt694", camel: "Evt694", parse: p694, filter: f694, wildcard: c3::events::evt694::wildcard_filter, event: c3::events::evt694::event },
    EvCase { contract: 3, name: "Evt695", camel: "Evt695", parse: p695, filter: f695, wildcard: c3::events::evt695::wildcard_filter, event: c3::events::evt695::event },
    EvCase { contract: 3, name: "Evt696", camel: "Evt696", parse: p696, filter: f696, wildcard: c3::events::evt696::wildcard_filter, event: c3::events::evt696::event },
    EvCase { contract: 3, name: "Evt697", camel: "Evt697", parse: p697, filter: f697, wildcard: c3::events::evt697::wildcard_filter, event: c3::events::evt697::event },
    EvCase { contract: 3, name: "Evt698", camel: "Evt698", parse: p698, filter: f698, wildcard: c3::events::evt698::wildcard_filter, event: c3::events::evt698::event },
    EvCase { contract: 3, name: "Evt699", camel: "Evt699", parse: p699, filter: f699, wildcard: c3::events::evt699::wildcard_filter, event: c3::events::evt699::event },
    EvCase { contract: 3, name: "Evt700", camel: "Evt700", parse: p700, filter: f700, wildcard: c3::events::evt700::wildcard_filter, event: c3::events::evt700::event },
    EvCase { contract: 3, name: "Evt701", camel: "Evt701", parse: p701, filter: f701, wildcard: c3::events::evt701::wildcard_filter, event: c3::events::evt701::event },
    EvCase { contract: 3, name: "Evt702", camel: "Evt702", parse: p702, filter: f702, wildcard: c3::events::evt702::wildcard_filter, event: c3::events::evt702::event },
    EvCase { contract: 3, name: "Evt703", camel: "Evt703", parse: p703, filter: f703, wildcard: c3::events::evt703::wildcard_filter, event: c3::events::evt703::event },
    EvCase { contract: 3, name: "Evt704", camel: "Evt704", parse: p704, filter: f704, wildcard: c3::events::evt704::wildcard_filter, event: c3::events::evt704::event },
    EvCase { contract: 3, name: "Evt705", camel: "Evt705", parse: p705, filter: f705, wildcard: c3::events::evt705::wildcard_filter, event: c3::events::evt705::event },
    EvCase { contract: 3, name: "Evt706", camel: "Evt706", parse: p706, filter: f706, wildcard: c3::events::evt706::wildcard_filter, event: c3::events::evt706::event },
    EvCase { contract: 3, name: "Evt707", camel: "Evt707", parse: p707, filter: f707, wildcard: c3::events::evt707::wildcard_filter, event: c3::events::evt707::event },
    EvCase { contract: 3, name: "Evt708", camel: "Evt708", parse: p708, filter: f708, wildcard: c3::events::evt708::wildcard_filter, event: c3::events::evt708::event },
    EvCase { contract: 3, name: "Evt709", camel: "Evt709", parse: p709, filter: f709, wildcard: c3::events::evt709::wildcard_filter, event: c3::events::evt709::event },
    EvCase { contract: 3, name: "Evt710", camel: "Evt710", parse: p710, filter: f710, wildcard: c3::events::evt710::wildcard_filter, event: c3::events::evt710::event },
    EvCase { contract: 3, name: "Evt711", camel: "Evt711", parse: p711, filter: f711, wildcard: c3::events::evt711::wildcard_filter, event: c3::events::evt711::event },
    EvCase { contract: 3, name: "Evt712", camel: "Evt712", parse: p712, filter: f712, wildcard: c3::events::evt712::wildcard_filter, event: c3::events::evt712::event },
    EvCase { contract: 3, name: "Evt713", camel: "Evt713", parse: p713, filter: f713, wildcard: c3::events::evt713::wildcard_filter, event: c3::events::evt713::event },
    EvCase { contract: 3, name: "Evt714", camel: "Evt714", parse: p714, filter: f714, wildcard: c3::events::evt714::wildcard_filter, event: c3::events::evt714::event },
    EvCase { contract: 3, name: "Evt715", camel: "Evt715", parse: p715, filter: f715, wildcard: c3::events::evt715::wildcard_filter, event: c3::events::evt715::event },
    EvCase { contract: 3, name: "Evt716", camel: "Evt716", parse: p716, filter: f716, wildcard: c3::events::evt716::wildcard_filter, event: c3::events::evt716::event },
    EvCase { contract: 3, name: "Evt717", camel: "Evt717", parse: p717, filter: f717, wildcard: c3::events::evt717::wildcard_filter, event: c3::events::evt717::event },
    EvCase { contract: 3, name: "Evt718", camel: "Evt718", parse: p718, filter: f718, wildcard: c3::events::evt718::wildcard_filter, event: c3::events::evt718::event },
    EvCase { contract: 3, name: "Evt719", camel: "Evt719", parse: p719, filter: f719, wildcard: c3::events::evt719::wildcard_filter, event: c3::events::evt719::event },
    EvCase { contract: 3, name: "Evt720", camel: "Evt720", parse: p720, filter: f720, wildcard: c3::events::evt720::wildcard_filter, event: c3::events::evt720::event },
    EvCase { contract: 3, name: "Evt721", camel: "Evt721", parse: p721, filter: f721, wildcard: c3::events::evt721::wildcard_filter, event: c3::events::evt721::event },
    EvCase { contract: 3, name: "Evt722", camel: "Evt722", parse: p722, filter: f722, wildcard: c3::events::evt722::wildcard_filter, event: c3::events::evt722::event },
    EvCase { contract: 3, name: "Evt723", camel: "Evt723", parse: p723, filter: f723, wildcard: c3::events::evt723::wildcard_filter, event: c3::events::evt723::event },
    EvCase { contract: 3, name: "Evt724", camel: "Evt724", parse: p724, filter: f724, wildcard: c3::events::evt724::wildcard_filter, event: c3::events::evt724::event },
    EvCase { contract: 3, name: "Evt725", camel: "Evt725", parse: p725, filter: f725, wildcard: c3::events::evt725::wildcard_filter, event: c3::events::evt725::event },
    EvCase { contract: 3, name: "Evt726", camel: "Evt726", parse: p726, filter: f726, wildcard: c3::events::evt726::wildcard_filter, event: c3::events::evt726::event },
    EvCase { contract: 3, name: "Evt727", camel: "Evt727", parse: p727, filter: f727, wildcard: c3::events::evt727::wildcard_filter, event: c3::events::evt727::event },
    EvCase { contract: 3, name: "Evt728", camel: "Evt728", parse: p728, filter: f728, wildcard: c3::events::evt728::wildcard_filter, event: c3::events::evt728::event },
    EvCase { contract: 3, name: "Evt729", camel: "Evt729", parse: p729, filter: f729, wildcard: c3::events::evt729::wildcard_filter, event: c3::events::evt729::event },
    EvCase { contract: 3, name: "Evt730", camel: "Evt730", parse: p730, filter: f730, wildcard: c3::events::evt730::wildcard_filter, event: c3::events::evt730::event },
    EvCase { contract: 3, name: "Evt731", camel: "Evt731", parse: p731, filter: f731, wildcard: c3::events::evt731::wildcard_filter, event: c3::events::evt731::event },
    EvCase { contract: 3, name: "Evt732", camel: "Evt732", parse: p732, filter: f732, wildcard: c3::events::evt732::wildcard_filter, event: c3::events::evt732::event },
    EvCase { contract: 3, name: "Evt733", camel: "Evt733", parse: p733, filter: f733, wildcard: c3::events::evt733::wildcard_filter, event: c3::events::evt733::event },
    EvCase { contract: 3, name: "Evt734", camel: "Evt734", parse: p734, filter: f734, wildcard: c3::events::evt734::wildcard_filter, event: c3::events::evt734::event },
    EvCase { contract: 3, name: "Evt735", camel: "Evt735", parse: p735, filter: f735, wildcard: c3::events::evt735::wildcard_filter, event: c3::events::evt735::event },
    EvCase { contract: 3, name: "Evt736", camel: "Evt736", parse: p736, filter: f736, wildcard: c3::events::evt736::wildcard_filter, event: c3::events::evt736::event },
    EvCase { contract: 3, name: "Evt737", camel: "Evt737", parse: p737, filter: f737, wildcard: c3::events::evt737::wildcard_filter, event: c3::events::evt737::event },
    EvCase { contract: 3, name: "Evt738", camel: "Evt738", parse: p738, filter: f738, wildcard: c3::events::evt738::wildcard_filter, event: c3::events::evt738::event },
    EvCase { contract: 3, name: "Evt739", camel: "Evt739", parse: p739, filter: f739, wildcard: c3::events::evt739::wildcard_filter, event: c3::events::evt739::event },
    EvCase { contract: 3, name: "Evt740", camel: "Evt740", parse: p740, filter: f740, wildcard: c3::events::evt740::wildcard_filter, event: c3::events::evt740::event },
    EvCase { contract: 3, name: "Evt741", camel: "Evt741", parse: p741, filter: f741, wildcard: c3::events::evt741::wildcard_filter, event: c3::events::evt741::event },
    EvCase { contract: 3, name: "Evt742", camel: "Evt742", parse: p742, filter: f742, wildcard: c3::events::evt742::wildcard_filter, event: c3::events::evt742::event },
    EvCase { contract: 3, name: "Evt743", camel: "Evt743", parse: p743, filter: f743, wildcard: c3::events::evt743::wildcard_filter, event: c3::events::evt743::event },
    EvCase { contract: 3, name: "Evt744", camel: "Evt744", parse: p744, filter: f744, wildcard: c3::events::evt744::wildcard_filter, event: c3::events::evt744::event },
    EvCase { contract: 3, name: "Evt745", camel: "Evt745", parse: p745, filter: f745, wildcard: c3::events::evt745::wildcard_filter, event: c3::events::evt745::event },
    EvCase { contract: 3, name: "Evt746", camel: "Evt746", parse: p746, filter: f746, wildcard: c3::events::evt746::wildcard_filter, event: c3::events::evt746::event },
    EvCase { contract: 3, name: "Evt747", camel: "Evt747", parse: p747, filter: f747, wildcard: c3::events::evt747::wildcard_filter, event: c3::events::evt747::event },
    EvCase { contract: 4, name: "Evt748", camel: "Evt748", parse: p748, filter: f748, wildcard: c4::events::evt748::wildcard_filter, event: c4::events::evt748::event },
    EvCase { contract: 4, name: "Evt749", camel: "Evt749", parse: p749, filter: f749, wildcard: c4::events::evt749::wildcard_filter, event: c4::events::evt749::event },
    EvCase { contract: 4, name: "Evt750", camel: "Evt750", parse: p750, filter: f750, wildcard: c4::events::evt750::wildcard_filter, event: c4::events::evt750::event },
    EvCase { contract: 4, name: "Evt751", camel: "Evt751", parse: p751, filter: f751, wildcard: c4::events::evt751::wildcard_filter, event: c4::events::evt751::event },
    EvCase { contract: 4, name: "Evt752", camel: "Evt752", parse: p752, filter: f752, wildcard: c4::events::evt752::wildcard_filter, event: c4::events::evt752::event },
    EvCase { contract: 4, name: "Evt753", camel: "Evt753", parse: p753, filter: f753, wildcard: c4::events::evt753::wildcard_filter, event: c4::events::evt753::event },
    EvCase { contract: 4, name: "Evt754", camel: "Evt754", parse: p754, filter: f754, wildcard: c4::events::evt754::wildcard_filter, event: c4::events::evt754::event },
    EvCase { contract: 4, name: "Evt755", camel: "Evt755", parse: p755, filter: f755, wildcard: c4::events::evt755::wildcard_filter, event: c4::events::evt755::event },
    EvCase { contract: 4, name: "Evt756", camel: "Evt756", parse: p756, filter: f756, wildcard: c4::events::evt756::wildcard_filter, event: c4::events::evt756::event },
    EvCase { contract: 4, name: "Evt757", camel: "Evt757", parse: p757, filter: f757, wildcard: c4::events::evt757::wildcard_filter, event: c4::events::evt757::event },
    EvCase { contract: 4, name: "Evt758", camel: "Evt758", parse: p758, filter: f758, wildcard: c4::events::evt758::wildcard_filter, event: c4::events::evt758::event },
    EvCase { contract: 4, name: "Evt759", camel: "Evt759", parse: p759, filter: f759, wildcard: c4::events::evt759::wildcard_filter, event: c4::events::evt759::event },
    EvCase { contract: 4, name: "Evt760", camel: "Evt760", parse: p760, filter: f760, wildcard: c4::events::evt760::wildcard_filter, event: c4::events::evt760::event },
    EvCase { contract: 4, name: "Evt761", camel: "Evt761", parse: p761, filter: f761, wildcard: c4::events::evt761::wildcard_filter, event: c4::events::evt761::event },
    EvCase { contract: 4, name: "Evt762", camel: "Evt762", parse: p762, filter: f762, wildcard: c4::events::evt762::wildcard_filter, event: c4::events::evt762::event },
    EvCase { contract: 4, name: "Evt763", camel: "Evt763", parse: p763, filter: f763, wildcard: c4::events::evt763::wildcard_filter, event: c4::events::evt763::event },
    EvCase { contract: 4, name: "Evt764", camel: "Evt764", parse: p764, filter: f764, wildcard: c4::events::evt764::wildcard_filter, event: c4::events::evt764::event },
    EvCase { contract: 4, name: "Evt765", camel: "Evt765", parse: p765, filter: f765, wildcard: c4::events::evt765::wildcard_filter, event: c4::events::evt765::event },
    EvCase { contract: 4, name: "Evt766", camel: "Evt766", parse: p766, filter: f766, wildcard: c4::events::evt766::wildcard_filter, event: c4::events::evt766::event },
    EvCase { contract: 4, name: "Evt767", camel: "Evt767", parse: p767, filter: f767, wildcard: c4::events::evt767::wildcard_filter, event: c4::events::evt767::event },
    EvCase { contract: 5, name: "Evt768", camel: "Evt768", parse: p768, filter: f768, wildcard: c5::events::evt768::wildcard_filter, event: c5::events::evt768::event },
    EvCase { contract: 5, name: "Evt769", camel: "Evt769", parse: p769, filter: f769, wildcard: c5::events::evt769::wildcard_filter, event: c5::events::evt769::event },
    EvCase { contract: 5, name: "Evt770", camel: "Evt770", parse: p770, filter: f770, wildcard: c5::events::evt770::wildcard_filter, event: c5::events::evt770::event },
    EvCase { contract: 5, name: "Evt771", camel: "Evt771", parse: p771, filter: f771, wildcard: c5::events::evt771::wildcard_filter, event: c5::events::evt771::event },
    EvCase { contract: 5, name: "Evt772", camel: "Evt772", parse: p772, filter: f772, wildcard: c5::events::evt772::wildcard_filter, event: c5::events::evt772::event },
    EvCase { contract: 5, name: "Evt773", camel: "Evt773", parse: p773, filter: f773, wildcard: c5::events::evt773::wildcard_filter, event: c5::events::evt773::event },
    EvCase { contract: 5, name: "Evt774", camel: "Evt774", parse: p774, filter: f774, wildcard: c5::events::evt774::wildcard_filter, event: c5::events::evt774::event },
    EvCase { contract: 5, name: "Evt775", camel: "Evt775", parse: p775, filter: f775, wildcard: c5::events::evt775::wildcard_filter, event: c5::events::evt775::event },
    EvCase { contract: 5, name: "Evt776", camel: "Evt776", parse: p776, filter: f776, wildcard: c5::events::evt776::wildcard_filter, event: c5::events::evt776::event },
    EvCase { contract: 5, name: "Evt777", camel: "Evt777", parse: p777, filter: f777, wildcard: c5::events::evt777::wildcard_filter, event: c5::events::evt777::event },
    EvCase { contract: 5, name: "Evt778", camel: "Evt778", parse: p778, filter: f778, wildcard: c5::events::evt778::wildcard_filter, event: c5::events::evt778::event },
    EvCase { contract: 5, name: "Evt779", camel: "Evt779", parse: p779, filter: f779, wildcard: c5::events::evt779::wildcard_filter, event: c5::events::evt779::event },
    EvCase { contract: 5, name: "Evt780", camel: "Evt780", parse: p780, filter: f780, wildcard: c5::events::evt780::wildcard_filter, event: c5::events::evt780::event },
    EvCase { contract: 5, name: "Evt781", camel: "Evt781", parse: p781, filter: f781, wildcard: c5::events::evt781::wildcard_filter, event: c5::events::evt781::event },
    EvCase { contract: 5, name: "Evt782", camel: "Evt782", parse: p782, filter: f782, wildcard: c5::events::evt782::wildcard_filter, event: c5::events::evt782::event },
    EvCase { contract: 5, name: "Evt783", camel: "Evt783", parse: p783, filter: f783, wildcard: c5::events::evt783::wildcard_filter, event: c5::events::evt783::event },
    EvCase { contract: 5, name: "Evt784", camel: "Evt784", parse: p784, filter: f784, wildcard: c5::events::evt784::wildcard_filter, event: c5::events::evt784::event },
    EvCase { contract: 5, name: "Evt785", camel: "Evt785", parse: p785, filter: f785, wildcard: c5::events::evt785::wildcard_filter, event: c5::events::evt785::event },
    EvCase { contract: 5, name: "Evt786", camel: "Evt786", parse: p786, filter: f786, wildcard: c5::events::evt786::wildcard_filter, event: c5::events::evt786::event },
    EvCase { contract: 5, name: "Evt787", camel: "Evt787", parse: p787, filter: f787, wildcard: c5::events::evt787::wildcard_filter, event: c5::events::evt787::event },
    EvCase { contract: 5, name: "Evt788", camel: "Evt788", parse: p788, filter: f788, wildcard: c5::events::evt788::wildcard_filter, event: c5::events::evt788::event },
    EvCase { contract: 5, name: "Evt789", camel: "Evt789", parse: p789, filter: f789, wildcard: c5::events::evt789::wildcard_filter, event: c5::events::evt789::event },
    EvCase { contract: 5, name: "Evt790", camel: "Evt790", parse: p790, filter: f790, wildcard: c5::events::evt790::wildcard_filter, event: c5::events::evt790::event },
    EvCase { contract: 5, name: "Evt791", camel: "Evt791", parse: p791, filter: f791, wildcard: c5::events::evt791::wildcard_filter, event: c5::events::evt791::event },
    EvCase { contract: 5, name: "Evt792", camel: "Evt792", parse: p792, filter: f792, wildcard: c5::events::evt792::wildcard_filter, event: c5::events::evt792::event },
    EvCase { contract: 5, name: "Evt793", camel: "Evt793", parse: p793, filter: f793, wildcard: c5::events::evt793::wildcard_filter, event: c5::events::evt793::event },
    EvCase { contract: 5, name: "Evt794", camel: "Evt794", parse: p794, filter: f794, wildcard: c5::events::evt794::wildcard_filter, event: c5::events::evt794::event },
    EvCase { contract: 5, name: "Evt795", camel: "Evt795", parse: p795, filter: f795, wildcard: c5::events::evt795::wildcard_filter, event: c5::events::evt795::event },
    EvCase { contract: 5, name: "Evt796", camel: "Evt796", parse: p796, filter: f796, wildcard: c5::events::evt796::wildcard_filter, event: c5::events::evt796::event },
    EvCase { contract: 5, name: "Evt797", camel: "Evt797", parse: p797, filter: f797, wildcard: c5::events::evt797::wildcard_filter, event: c5::events::evt797::event },
    EvCase { contract: 5, name: "Evt798", camel: "Evt798", parse: p798, filter: f798, wildcard: c5::events::evt798::wildcard_filter, event: c5::events::evt798::event },
    EvCase { contract: 5, name: "Evt799", camel: "Evt799", parse: p799, filter: f799, wildcard: c5::events::evt799::wildcard_filter, event: c5::events::evt799::event },
    EvCase { contract: 5, name: "Evt800", camel: "Evt800", parse: p800, filter: f800, wildcard: c5::events::evt800::wildcard_filter, event: c5::events::evt800::event },
    EvCase { contract: 5, name: "Evt801", camel: "Evt801", parse: p801, filter: f801, wildcard: c5::events::evt801::wildcard_filter, event: c5::events::evt801::event },
    EvCase { contract: 5, name: "Evt802", camel: "Evt802", parse: p802, filter: f802, wildcard: c5::events::evt802::wildcard_filter, event: c5::events::evt802::event },
    EvCase { contract: 5, name: "Evt803", camel: "Evt803", parse: p803, filter: f803, wildcard: c5::events::evt803::wildcard_filter, event: c5::events::evt803::event },
    EvCase { contract: 5, name: "Evt804", camel: "Evt804", parse: p804, filter: f804, wildcard: c5::events::evt804::wildcard_filter, event: c5::events::evt804::event },
    EvCase { contract: 5, name: "Evt805", camel: "Evt805", parse: p805, filter: f805, wildcard: c5::events::evt805::wildcard_filter, event: c5::events::evt805::event },
    EvCase { contract: 5, name: "Evt806", camel: "Evt806", parse: p806, filter: f806, wildcard: c5::events::evt806::wildcard_filter, event: c5::events::evt806::event },
    EvCase { contract: 5, name: "Evt807", camel: "Evt807", parse: p807, filter: f807, wildcard: c5::events::evt807::wildcard_filter, event: c5::events::evt807::event },
    EvCase { contract: 5, name: "Evt808", camel: "Evt808", parse: p808, filter: f808, wildcard: c5::events::evt808::wildcard_filter, event: c5::events::evt808::event },
    EvCase { contract: 5, name: "Evt809", camel: "Evt809", parse: p809, filter: f809, wildcard: c5::events::evt809::wildcard_filter, event: c5::events::evt809::event },
    EvCase { contract: 5, name: "Evt810", camel: "Evt810", parse: p810, filter: f810, wildcard: c5::events::evt810::wildcard_filter, event: c5::events::evt810::event },
    EvCase { contract: 5, name: "Evt811", camel: "Evt811", parse: p811, filter: f811, wildcard: c5::events::evt811::wildcard_filter, event: c5::events::evt811::event },
    EvCase { contract: 5, name: "Evt812", camel: "Evt812", parse: p812, filter: f812, wildcard: c5::events::evt812::wildcard_filter, event: c5::events::evt812::event },
    EvCase { contract: 5, name: "Evt813", camel: "Evt813", parse: p813, filter: f813, wildcard: c5::events::evt813::wildcard_filter, event: c5::events::evt813::event },
    EvCase { contract: 5, name: "Evt814", camel: "Evt814", parse: p814, filter: f814, wildcard: c5::events::evt814::wildcard_filter, event: c5::events::evt814::event },
    EvCase { contract: 5, name: "Evt815", camel: "Evt815", parse: p815, filter: f815, wildcard: c5::events::evt815::wildcard_filter, event: c5::events::evt815::event },
    EvCase { contract: 5, name: "Evt816", camel: "Evt816", parse: p816, filter: f816, wildcard: c5::events::evt816::wildcard_filter, event: c5::events::evt816::event },
    EvCase { contract: 5, name: "Evt817", camel: "Evt817", parse: p817, filter: f817, wildcard: c5::events::evt817::wildcard_filter, event: c5::events::evt817::event },
    EvCase { contract: 5, name: "Evt818", camel: "Evt818", parse: p818, filter: f818, wildcard: c5::events::evt818::wildcard_filter, event: c5::events::evt818::event },
    EvCase { contract: 5, name: "Evt819", camel: "Evt819", parse: p819, filter: f819, wildcard: c5::events::evt819::wildcard_filter, event: c5::events::evt819::event },
    EvCase { contract: 5, name: "Evt820", camel: "Evt820", parse: p820, filter: f820, wildcard: c5::events::evt820::wildcard_filter, event: c5::events::evt820::event },
    EvCase { contract: 5, name: "Evt821", camel: "Evt821", parse: p821, filter: f821, wildcard: c5::events::evt821::wildcard_filter, event: c5::events::evt821::event },
    EvCase { contract: 5, name: "Evt822", camel: "Evt822", parse: p822, filter: f822, wildcard: c5::events::evt822::wildcard_filter, event: c5::events::evt822::event },
    EvCase { contract: 5, name: "Evt823", camel: "Evt823", parse: p823, filter: f823, wildcard: c5::events::evt823::wildcard_filter, event: c5::events::evt823::event },
    EvCase { contract: 5, name: "Evt824", camel: "Evt824", parse: p824, filter: f824, wildcard: c5::events::evt824::wildcard_filter, event: c5::events::evt824::event },
    EvCase { contract: 5, name: "Evt825", camel: "Evt825", parse: p825, filter: f825, wildcard: c5::events::evt825::wildcard_filter, event: c5::events::evt825::event },
    EvCase { contract: 5, name: "Evt826", camel: "Evt826", parse: p826, filter: f826, wildcard: c5::events::evt826::wildcard_filter, event: c5::events::evt826::event },
    EvCase { contract: 5, name: "Evt827", camel: "Evt827", parse: p827, filter: f827, wildcard: c5::events::evt827::wildcard_filter, event: c5::events::evt827::event },
    EvCase { contract: 5, name: "Evt828", camel: "Evt828", parse: p828, filter: f828, wildcard: c5::events::evt828::wildcard_filter, event: c5::events::evt828::event },
    EvCase { contract: 5, name: "Evt829", camel: "Evt829", parse: p829, filter: f829, wildcard: c5::events::evt829::wildcard_filter, event: c5::events::evt829::event },
    EvCase { contract: 5, name: "Evt830", camel: "Evt830", parse: p830, filter: f830, wildcard: c5::events::evt830::wildcard_filter, event: c5::events::evt830::event },
    EvCase { contract: 5, name: "Evt831", camel: "Evt831", parse: p831, filter: f831, wildcard: c5::events::evt831::wildcard_filter, event: c5::events::evt831::event },
    EvCase { contract: 5, name: "Evt832", camel: "Evt832", parse: p832, filter: f832, wildcard: c5::events::evt832::wildcard_filter, event: c5::events::evt832::event },
    EvCase { contract: 5, name: "Evt833", camel: "Evt833", parse: p833, filter: f833, wildcard: c5::events::evt833::wildcard_filter, event: c5::events::evt833::event },
    EvCase { contract: 5, name: "Evt834", camel: "Evt834", parse: p834, filter: f834, wildcard: c5::events::evt834::wildcard_filter, event: c5::events::evt834::event },
    EvCase { contract: 5, name: "Evt835", camel: "Evt835", parse: p835, filter: f835, wildcard: c5::events::evt835::wildcard_filter, event: c5::events::evt835::event },
    EvCase { contract: 5, name: "Evt836", camel: "Evt836", parse: p836, filter: f836, wildcard: c5::events::evt836::wildcard_filter, event: c5::events::evt836::event },
    EvCase { contract: 5, name: "Evt837", camel: "Evt837", parse: p837, filter: f837, wildcard: c5::events::evt837::wildcard_filter, event: c5::events::evt837::event },
    EvCase { contract: 5, name: "Evt838", camel: "Evt838", parse: p838, filter: f838, wildcard: c5::events::evt838::wildcard_filter, event: c5::events::evt838::event },
    EvCase { contract: 5, name: "Evt839", camel: "Evt839", parse: p839, filter: f839, wildcard: c5::events::evt839::wildcard_filter, event: c5::events::evt839::event },
    EvCase { contract: 5, name: "Evt840", camel: "Evt840", parse: p840, filter: f840, wildcard: c5::events::evt840::wildcard_filter, event: c5::events::evt840::event },
    EvCase { contract: 5, name: "Evt841", camel: "Evt841", parse: p841, filter: f841, wildcard: c5::events::evt841::wildcard_filter, event: c5::events::evt841::event },
    EvCase { contract: 5, name: "Evt842", camel: "Evt842", parse: p842, filter: f842, wildcard: c5::events::evt842::wildcard_filter, event: c5::events::evt842::event },
    EvCase { contract: 5, name: "Evt843", camel: "Evt843", parse: p843, filter: f843, wildcard: c5::events::evt843::wildcard_filter, event: c5::events::evt843::event },
    EvCase { contract: 5, name: "Evt844", camel: "Evt844", parse: p844, filter: f844, wildcard: c5::events::evt844::wildcard_filter, event: c5::events::evt844::event },
    EvCase { contract: 5, name: "Evt845", camel: "Evt845", parse: p845, filter: f845, wildcard: c5::events::evt845::wildcard_filter, event: c5::events::evt845::event },
    EvCase { contract: 5, name: "Evt846", camel: "Evt846", parse: p846, filter: f846, wildcard: c5::events::evt846::wildcard_filter, event: c5::events::evt846::event },
    EvCase { contract: 5, name: "Evt847", camel: "Evt847", parse: p847, filter: f847, wildcard: c5::events::evt847::wildcard_filter, event: c5::events::evt847::event },
    EvCase { contract: 5, name: "Evt848", camel: "Evt848", parse: p848, filter: f848, wildcard: c5::events::evt848::wildcard_filter, event: c5::events::evt848::event },
    EvCase { contract: 5, name: "Evt849", camel: "Evt849", parse: p849, filter: f849, wildcard: c5::events::evt849::wildcard_filter, event: c5::events::evt849::event },
    EvCase { contract: 5, name: "Evt850", camel: "Evt850", parse: p850, filter: f850, wildcard: c5::events::evt850::wildcard_filter, event: c5::events::evt850::event },
    EvCase { contract: 5, name: "Evt851", camel: "Evt851", parse: p851, filter: f851, wildcard: c5::events::evt851::wildcard_filter, event: c5::events::evt851::event },
    EvCase { contract: 5, name: "Evt852", camel: "Evt852", parse: p852, filter: f852, wildcard: c5::events::evt852::wildcard_filter, event: c5::events::evt852::event },
    EvCase { contract: 5, name: "Evt853", camel: "Evt853", parse: p853, filter: f853, wildcard: c5::events::evt853::wildcard_filter, event: c5::events::evt853::event },
    EvCase { contract: 5, name: "Evt854", camel: "Evt854", parse: p854, filter: f854, wildcard: c5::events::evt854::wildcard_filter, event: c5::events::evt854::event },
    EvCase { contract: 5, name: "Evt855", camel: "Evt855", parse: p855, filter: f855, wildcard: c5::events::evt855::wildcard_filter, event: c5::events::evt855::event },
    EvCase { contract: 5, name: "Evt856", camel: "Evt856", parse: p856, filter: f856, wildcard: c5::events::evt856::wildcard_filter, event: c5::events::evt856::event },
    EvCase { contract: 5, name: "Evt857", camel: "Evt857", parse: p857, filter: f857, wildcard: c5::events::evt857::wildcard_filter, event: c5::events::evt857::event },
    EvCase { contract: 5, name: "Evt858", camel: "Evt858", parse: p858, filter: f858, wildcard: c5::events::evt858::wildcard_filter, event: c5::events::evt858::event },
    EvCase { contract: 5, name: "Evt859", camel: "Evt859", parse: p859, filter: f859, wildcard: c5::events::evt859::wildcard_filter, event: c5::events::evt859::event },
    EvCase { contract: 5, name: "Evt860", camel: "Evt860", parse: p860, filter: f860, wildcard: c5::events::evt860::wildcard_filter, event: c5::events::evt860::event },
    EvCase { contract: 5, name: "Evt861", camel: "Evt861", parse: p861, filter: f861, wildcard: c5::events::evt861::wildcard_filter, event: c5::events::evt861::event },
    EvCase { contract: 5, name: "Evt862", camel: "Evt862", parse: p862, filter: f862, wildcard: c5::events::evt862::wildcard_filter, event: c5::events::evt862::event },
    EvCase { contract: 5, name: "Evt863", camel: "Evt863", parse: p863, filter: f863, wildcard: c5::events::evt863::wildcard_filter, event: c5::events::evt863::event },
    EvCase { contract: 5, name: "Evt864", camel: "Evt864", parse: p864, filter: f864, wildcard: c5::events::evt864::wildcard_filter, event: c5::events::evt864::event },
    EvCase { contract: 5, name: "Evt865", camel: "Evt865", parse: p865, filter: f865, wildcard: c5::events::evt865::wildcard_filter, event: c5::events::evt865::event },
    EvCase { contract: 5, name: "Evt866", camel: "Evt866", parse: p866, filter: f866, wildcard: c5::events::evt866::wildcard_filter, event: c5::events::evt866::event },
    EvCase { contract: 5, name: "Evt867", camel: "Evt867", parse: p867, filter: f867, wildcard: c5::events::evt867::wildcard_filter, event: c5::events::evt867::event },
    EvCase { contract: 5, name: "Evt868", camel: "Evt868", parse: p868, filter: f868, wildcard: c5::events::evt868::wildcard_filter, event: c5::events::evt868::event },
    EvCase { contract: 5, name: "Evt869", camel: "Evt869", parse: p869, filter: f869, wildcard: c5::events::evt869::wildcard_filter, event: c5::events::evt869::event },
    EvCase { contract: 5, name: "Evt870", camel: "Evt870", parse: p870, filter: f870, wildcard: c5::events::evt870::wildcard_filter, event: c5::events::evt870::event },
    EvCase { contract: 5, name: "Evt871", camel: "Evt871", parse: p871, filter: f871, wildcard: c5::events::evt871::wildcard_filter, event: c5::events::evt871::event },
    EvCase { contract: 5, name: "Evt872", camel: "Evt872", parse: p872, filter: f872, wildcard: c5::events::evt872::wildcard_filter, event: c5::events::evt872::event },
    EvCase { contract: 5, name: "Evt873", camel: "Evt873", parse: p873, filter: f873, wildcard: c5::events::evt873::wildcard_filter, event: c5::events::evt873::event },
    EvCase { contract: 5, name: "Evt874", camel: "Evt874", parse: p874, filter: f874, wildcard: c5::events::evt874::wildcard_filter, event: c5::events::evt874::event },
    EvCase { contract: 5, name: "Evt875", camel: "Evt875", parse: p875, filter: f875, wildcard: c5::events::evt875::wildcard_filter, event: c5::events::evt875::event },
    EvCase { contract: 5, name: "Evt876", camel: "Evt876", parse: p876, filter: f876, wildcard: c5::events::evt876::wildcard_filter, event: c5::events::evt876::event },
    EvCase { contract: 5, name: "Evt877", camel: "Evt877", parse: p877, filter: f877, wildcard: c5::events::evt877::wildcard_filter, event: c5::events::evt877::event },
    EvCase { contract: 5, name: "Evt878", camel: "Evt878", parse: p878, filter: f878, wildcard: c5::events::evt878::wildcard_filter, event: c5::events::evt878::event },
    EvCase { contract: 5, name: "Evt879", camel: "Evt879", parse: p879, filter: f879, wildcard: c5::events::evt879::wildcard_filter, event: c5::events::evt879::event },
    EvCase { contract: 5, name: "Evt880", camel: "Evt880", parse: p880, filter: f880, wildcard: c5::events::evt880::wildcard_filter, event: c5::events::evt880::event },
    EvCase { contract: 5, name: "Evt881", camel: "Evt881", parse: p881, filter: f881, wildcard: c5::events::evt881::wildcard_filter, event: c5::events::evt881::event },
    EvCase { contract: 5, name: "Evt882", camel: "Evt882", parse: p882, filter: f882, wildcard: c5::events::evt882::wildcard_filter, event: c5::events::evt882::event },
    EvCase { contract: 5, name: "Evt883", camel: "Evt883", parse: p883, filter: f883, wildcard: c5::events::evt883::wildcard_filter, event: c5::events::evt883::event },
    EvCase { contract: 5, name: "Evt884", camel: "Evt884", parse: p884, filter: f884, wildcard: c5::events::evt884::wildcard_filter, event: c5::events::evt884::event },
    EvCase { contract: 5, name: "Evt885", camel: "Evt885", parse: p885, filter: f885, wildcard: c5::events::evt885::wildcard_filter, event: c5::events::evt885::event },
    EvCase { contract: 5, name: "Evt886", camel: "Evt886", parse: p886, filter: f886, wildcard: c5::events::evt886::wildcard_filter, event: c5::events::evt886::event },
    EvCase { contract: 5, name: "Evt887", camel: "Evt887", parse: p887, filter: f887, wildcard: c5::events::evt887::wildcard_filter, event: c5::events::evt887::event },
    EvCase { contract: 5, name: "Evt888", camel: "Evt888", parse: p888, filter: f888, wildcard: c5::events::evt888::wildcard_filter, event: c5::events::evt888::event },
    EvCase { contract: 5, name: "Evt889", camel: "Evt889", parse: p889, filter: f889, wildcard: c5::events::evt889::wildcard_filter, event: c5::events::evt889::event },
    EvCase { contract: 5, name: "Evt890", camel: "Evt890", parse: p890, filter: f890, wildcard: c5::events::evt890::wildcard_filter, event: c5::events::evt890::event },
    EvCase { contract: 5, name: "Evt891", camel: "Evt891", parse: p891, filter: f891, wildcard: c5::events::evt891::wildcard_filter, event: c5::events::evt891::event },
    EvCase { contract: 5, name: "Evt892", camel: "Evt892", parse: p892, filter: f892, wildcard: c5::events::evt892::wildcard_filter, event: c5::events::evt892::event },
    EvCase { contract: 5, name: "Evt893", camel: "Evt893", parse: p893, filter: f893, wildcard: c5::events::evt893::wildcard_filter, event: c5::events::evt893::event },
    EvCase { contract: 5, name: "Evt894", camel: "Evt894", parse: p894, filter: f894, wildcard: c5::events::evt894::wildcard_filter, event: c5::events::evt894::event },
    EvCase { contract: 5, name: "Evt895", camel: "Evt895", parse: p895, filter: f895, wildcard: c5::events::evt895::wildcard_filter, event: c5::events::evt895::event },
    EvCase { contract: 5, name: "Evt896", camel: "Evt896", parse: p896, filter: f896, wildcard: c5::events::evt896::wildcard_filter, event: c5::events::evt896::event },
    EvCase { contract: 5, name: "Evt897", camel: "Evt897", parse: p897, filter: f897, wildcard: c5::events::evt897::wildcard_filter, event: c5::events::evt897::event },
    EvCase { contract: 5, name: "Evt898", camel: "Evt898", parse: p898, filter: f898, wildcard: c5::events::evt898::wildcard_filter, event: c5::events::evt898::event },
    EvCase { contract: 5, name: "Evt899", camel: "Evt899", parse: p899, filter: f899, wildcard: c5::events::evt899::wildcard_filter, event: c5::events::evt899::event },
    EvCase { contract: 5, name: "Evt900", camel: "Evt900", parse: p900, filter: f900, wildcard: c5::events::evt900::wildcard_filter, event: c5::events::evt900::event },
    EvCase { contract: 5, name: "Evt901", camel: "Evt901", parse: p901, filter: f901, wildcard: c5::events::evt901::wildcard_filter, event: c5::events::evt901::event },
    EvCase { contract: 5, name: "Evt902", camel: "Evt902", parse: p902, filter: f902, wildcard: c5::events::evt902::wildcard_filter, event: c5::events::evt902::event },
    EvCase { contract: 5, name: "Evt903", camel: "Evt903", parse: p903, filter: f903, wildcard: c5::events::evt903::wildcard_filter, event: c5::events::evt903::event },
    EvCase { contract: 5, name: "Evt904", camel: "Evt904", parse: p904, filter: f904, wildcard: c5::events::evt904::wildcard_filter, event: c5::events::evt904::event },
    EvCase { contract: 5, name: "Evt905", camel: "Evt905", parse: p905, filter: f905, wildcard: c5::events::evt905::wildcard_filter, event: c5::events::evt905::event },
    EvCase { contract: 5, name: "Evt906", camel: "Evt906", parse: p906, filter: f906, wildcard: c5::events::evt906::wildcard_filter, event: c5::events::evt906::event },
    EvCase { contract: 5, name: "Evt907", camel: "Evt907", parse: p907, filter: f907, wildcard: c5::events::evt907::wildcard_filter, event: c5::events::evt907::event },
    EvCase { contract: 5, name: "Evt908", camel: "Evt908", parse: p908, filter: f908, wildcard: c5::events::evt908::wildcard_filter, event: c5::events::evt908::event },
    EvCase { contract: 5, name: "Evt909", camel: "Evt909", parse: p909, filter: f909, wildcard: c5::events::evt909::wildcard_filter, event: c5::events::evt909::event },
    EvCase { contract: 5, name: "Evt910", camel: "Evt910", parse: p910, filter: f910, wildcard: c5::events::evt910::wildcard_filter, event: c5::events::evt910::event },
    EvCase { contract: 5, name: "Evt911", camel: "Evt911", parse: p911, filter: f911, wildcard: c5::events::evt911::wildcard_filter, event: c5::events::evt911::event },
    EvCase { contract: 5, name: "Evt912", camel: "Evt912", parse: p912, filter: f912, wildcard: c5::events::evt912::wildcard_filter, event: c5::events::evt912::event },
    EvCase { contract: 5, name: "Evt913", camel: "Evt913", parse: p913, filter: f913, wildcard: c5::events::evt913::wildcard_filter, event: c5::events::evt913::event },
    EvCase { contract: 5, name: "Evt914", camel: "Evt914", parse: p914, filter: f914, wildcard: c5::events::evt914::wildcard_filter, event: c5::events::evt914::event },
    EvCase { contract: 5, name: "Evt915", camel: "Evt915", parse: p915, filter: f915, wildcard: c5::events::evt915::wildcard_filter, event: c5::events::evt915::event },
    EvCase { contract: 5, name: "Evt916", camel: "Evt916", parse: p916, filter: f916, wildcard: c5::events::evt916::wildcard_filter, event: c5::events::evt916::event },
    EvCase { contract: 5, name: "Evt917", camel: "Evt917", parse: p917, filter: f917, wildcard: c5::events::evt917::wildcard_filter, event: c5::events::evt917::event },
    EvCase { contract: 5, name: "Evt918", camel: "Evt918", parse: p918, filter: f918, wildcard: c5::events::evt918::wildcard_filter, event: c5::events::evt918::event },
    EvCase { contract: 5, name: "Evt919", camel: "Evt919", parse: p919, filter: f919, wildcard: c5::events::evt919::wildcard_filter, event: c5::events::evt919::event },
    EvCase { contract: 5, name: "Evt920", camel: "Evt920", parse: p920, filter: f920, wildcard: c5::events::evt920::wildcard_filter, event: c5::events::evt920::event },
    EvCase { contract: 5, name: "Evt921", camel: "Evt921", parse: p921, filter: f921, wildcard: c5::events::evt921::wildcard_filter, event: c5::events::evt921::event },
    EvCase { contract: 5, name: "Evt922", camel: "Evt922", parse: p922, filter: f922, wildcard: c5::events::evt922::wildcard_filter, event: c5::events::evt922::event },
    EvCase { contract: 5, name: "Evt923", camel: "Evt923", parse: p923, filter: f923, wildcard: c5::events::evt923::wildcard_filter, event: c5::events::evt923::event },
    EvCase { contract: 5, name: "Evt924", camel: "Evt924", parse: p924, filter: f924, wildcard: c5::events::evt924::wildcard_filter, event: c5::events::evt924::event },
    EvCase { contract: 5, name: "Evt925", camel: "Evt925", parse: p925, filter: f925, wildcard: c5::events::evt925::wildcard_filter, event: c5::events::evt925::event },
    EvCase { contract: 5, name: "Evt926", camel: "Evt926", parse: p926, filter: f926, wildcard: c5::events::evt926::wildcard_filter, event: c5::events::evt926::event },
    EvCase { contract: 5, name: "Evt927", camel: "Evt927", parse: p927, filter: f927, wildcard: c5::events::evt927::wildcard_filter, event: c5::events::evt927::event },
    EvCase { contract: 5, name: "Evt928", camel: "Evt928", parse: p928, filter: f928, wildcard: c5::events::evt928::wildcard_filter, event: c5::events::evt928::event },
    EvCase { contract: 5, name: "Evt929", camel: "Evt929", parse: p929, filter: f929, wildcard: c5::events::evt929::wildcard_filter, event: c5::events::evt929::event },
    EvCase { contract: 5, name: "Evt930", camel: "Evt930", parse: p930, filter: f930, wildcard: c5::events::evt930::wildcard_filter, event: c5::events::evt930::event },
    EvCase { contract: 5, name: "Evt931", camel: "Evt931", parse: p931, filter: f931, wildcard: c5::events::evt931::wildcard_filter, event: c5::events::evt931::event },
    EvCase { contract: 5, name: "Evt932", camel: "Evt932", parse: p932, filter: f932, wildcard: c5::events::evt932::wildcard_filter, event: c5::events::evt932::event },
    EvCase { contract: 5, name: "Evt933", camel: "Evt933", parse: p933, filter: f933, wildcard: c5::events::evt933::wildcard_filter, event: c5::events::evt933::event },
    EvCase { contract: 5, name: "Evt934", camel: "Evt934", parse: p934, filter: f934, wildcard: c5::events::evt934::wildcard_filter, event: c5::events::evt934::event },
    EvCase { contract: 5, name: "Evt935", camel: "Evt935", parse: p935, filter: f935, wildcard: c5::events::evt935::wildcard_filter, event: c5::events::evt935::event },
    EvCase { contract: 5, name: "Evt936", camel: "Evt936", parse: p936, filter: f936, wildcard: c5::events::evt936::wildcard_filter, event: c5::events::evt936::event },
    EvCase { contract: 5, name: "Evt937", camel: "Evt937", parse: p937, filter: f937, wildcard: c5::events::evt937::wildcard_filter, event: c5::events::evt937::event },
    EvCase { contract: 5, name: "Evt938", camel: "Evt938", parse: p938, filter: f938, wildcard: c5::events::evt938::wildcard_filter, event: c5::events::evt938::event },
    EvCase { contract: 5, name: "Evt939", camel: "Evt939", parse: p939, filter: f939, wildcard: c5::events::evt939::wildcard_filter, event: c5::events::evt939::event },
    EvCase { contract: 5, name: "Evt940", camel: "Evt940", parse: p940, filter: f940, wildcard: c5::events::evt940::wildcard_filter, event: c5::events::evt940::event },
    EvCase { contract: 5, name: "Evt941", camel: "Evt941", parse: p941, filter: f941, wildcard: c5::events::evt941::wildcard_filter, event: c5::events::evt941::event },
    EvCase { contract: 5, name: "Evt942", camel: "Evt942", parse: p942, filter: f942, wildcard: c5::events::evt942::wildcard_filter, event: c5::events::evt942::event },
    EvCase { contract: 5, name: "Evt943", camel: "Evt943", parse: p943, filter: f943, wildcard: c5::events::evt943::wildcard_filter, event: c5::events::evt943::event },
    EvCase { contract: 5, name: "Evt944", camel: "Evt944", parse: p944, filter: f944, wildcard: c5::events::evt944::wildcard_filter, event: c5::events::evt944::event },
    EvCase { contract: 5, name: "Evt945", camel: "Evt945", parse: p945, filter: f945, wildcard: c5::events::evt945::wildcard_filter, event: c5::events::evt945::event },
    EvCase { contract: 5, name: "Evt946", camel: "Evt946", parse: p946, filter: f946, wildcard: c5::events::evt946::wildcard_filter, event: c5::events::evt946::event },
    EvCase { contract: 5, name: "Evt947", camel: "Evt947", parse: p947, filter: f947, wildcard: c5::events::evt947::wildcard_filter, event: c5::events::evt947::event },
    EvCase { contract: 5, name: "Evt948", camel: "Evt948", parse: p948, filter: f948, wildcard: c5::events::evt948::wildcard_filter, event: c5::events::evt948::event },
    EvCase { contract: 5, name: "Evt949", camel: "Evt949", parse: p949, filter: f949, wildcard: c5::events::evt949::wildcard_filter, event: c5::events::evt949::event },
    EvCase { contract: 5, name: "Evt950", camel: "Evt950", parse: p950, filter: f950, wildcard: c5::events::evt950::wildcard_filter, event: c5::events::evt950::event },
    EvCase { contract: 5, name: "Evt951", camel: "Evt951", parse: p951, filter: f951, wildcard: c5::events::evt951::wildcard_filter, event: c5::events::evt951::event },
    EvCase { contract: 5, name: "Evt952", camel: "Evt952", parse: p952, filter: f952, wildcard: c5::events::evt952::wildcard_filter, event: c5::events::evt952::event },
    EvCase { contract: 5, name: "Evt953", camel: "Evt953", parse: p953, filter: f953, wildcard: c5::events::evt953::wildcard_filter, event: c5::events::evt953::event },
    EvCase { contract: 5, name: "Evt954", camel: "Evt954", parse: p954, filter: f954, wildcard: c5::events::evt954::wildcard_filter, event: c5::events::evt954::event },
    EvCase { contract: 5, name: "Evt955", camel: "Evt955", parse: p955, filter: f955, wildcard: c5::events::evt955::wildcard_filter, event: c5::events::evt955::event },
    EvCase { contract: 5, name: "Evt956", camel: "Evt956", parse: p956, filter: f956, wildcard: c5::events::evt956::wildcard_filter, event: c5::events::evt956::event },
    EvCase { contract: 5, name: "Evt957", camel: "Evt957", parse: p957, filter: f957, wildcard: c5::events::evt957::wildcard_filter, event: c5::events::evt957::event },
    EvCase { contract: 5, name: "Evt958", camel: "Evt958", parse: p958, filter: f958, wildcard: c5::events::evt958::wildcard_filter, event: c5::events::evt958::event },
    EvCase { contract: 5, name: "Evt959", camel: "Evt959", parse: p959, filter: f959, wildcard: c5::events::evt959::wildcard_filter, event: c5::events::evt959::event },
    EvCase { contract: 5, name: "Evt960", camel: "Evt960", parse: p960, filter: f960, wildcard: c5::events::evt960::wildcard_filter, event: c5::events::evt960::event },
    EvCase { contract: 5, name: "Evt961", camel: "Evt961", parse: p961, filter: f961, wildcard: c5::events::evt961::wildcard_filter, event: c5::events::evt961::event },
    EvCase { contract: 5, name: "Evt962", camel: "Evt962", parse: p962, filter: f962, wildcard: c5::events::evt962::wildcard_filter, event: c5::events::evt962::event },
    EvCase { contract: 5, name: "Evt963", camel: "Evt963", parse: p963, filter: f963, wildcard: c5::events::evt963::wildcard_filter, event: c5::events::evt963::event },
    EvCase { contract: 5, name: "Evt964", camel: "Evt964", parse: p964, filter: f964, wildcard: c5::events::evt964::wildcard_filter, event: c5::events::evt964::event },
    EvCase { contract: 5, name: "Evt965", camel: "Evt965", parse: p965, filter: f965, wildcard: c5::events::evt965::wildcard_filter, event: c5::events::evt965::event },
    EvCase { contract: 5, name: "Evt966", camel: "Evt966", parse: p966, filter: f966, wildcard: c5::events::evt966::wildcard_filter, event: c5::events::evt966::event },
    EvCase { contract: 5, name: "Evt967", camel: "Evt967", parse: p967, filter: f967, wildcard: c5::events::evt967::wildcard_filter, event: c5::events::evt967::event },
    EvCase { contract: 5, name: "Evt968", camel: "Evt968", parse: p968, filter: f968, wildcard: c5::events::evt968::wildcard_filter, event: c5::events::evt968::event },
    EvCase { contract: 5, name: "Evt969", camel: "Evt969", parse: p969, filter: f969, wildcard: c5::events::evt969::wildcard_filter, event: c5::events::evt969::event },
    EvCase { contract: 5, name: "Evt970", camel: "Evt970", parse: p970, filter: f970, wildcard: c5::events::evt970::wildcard_filter, event: c5::events::evt970::event },
    EvCase { contract: 5, name: "Evt971", camel: "Evt971", parse: p971, filter: f971, wildcard: c5::events::evt971::wildcard_filter, event: c5::events::evt971::event },
    EvCase { contract: 5, name: "Evt972", camel: "Evt972", parse: p972, filter: f972, wildcard: c5::events::evt972::wildcard_filter, event: c5::events::evt972::event },
    EvCase { contract: 5, name: "Evt973", camel: "Evt973", parse: p973, filter: f973, wildcard: c5::events::evt973::wildcard_filter, event: c5::events::evt973::event },
    EvCase { contract: 5, name: "Evt974", camel: "Evt974", parse: p974, filter: f974, wildcard: c5::events::evt974::wildcard_filter, event: c5::events::evt974::event },
    EvCase { contract: 5, name: "Evt975", camel: "Evt975", parse: p975, filter: f975, wildcard: c5::events::evt975::wildcard_filter, event: c5::events::evt975::event },
    EvCase { contract: 5, name: "Evt976", camel: "Evt976", parse: p976, filter: f976, wildcard: c5::events::evt976::wildcard_filter, event: c5::events::evt976::event },
    EvCase { contract: 5, name: "Evt977", camel: "Evt977", parse: p977, filter: f977, wildcard: c5::events::evt977::wildcard_filter, event: c5::events::evt977::event },
    EvCase { contract: 5, name: "Evt978", camel: "Evt978", parse: p978, filter: f978, wildcard: c5::events::evt978::wildcard_filter, event: c5::events::evt978::event },
    EvCase { contract: 5, name: "Evt979", camel: "Evt979", parse: p979, filter: f979, wildcard: c5::events::evt979::wildcard_filter, event: c5::events::evt979::event },
    EvCase { contract: 5, name: "Evt980", camel: "Evt980", parse: p980, filter: f980, wildcard: c5::events::evt980::wildcard_filter, event: c5::events::evt980::event },
    EvCase { contract: 5, name: "Evt981", camel: "Evt981", parse: p981, filter: f981, wildcard: c5::events::evt981::wildcard_filter, event: c5::events::evt981::event },
    EvCase { contract: 5, name: "Evt982", camel: "Evt982", parse: p982, filter: f982, wildcard: c5::events::evt982::wildcard_filter, event: c5::events::evt982::event },
    EvCase { contract: 5, name: "Evt983", camel: "Evt983", parse: p983, filter: f983, wildcard: c5::events::evt983::wildcard_filter, event: c5::events::evt983::event },
    EvCase { contract: 5, name: "Evt984", camel: "Evt984", parse: p984, filter: f984, wildcard: c5::events::evt984::wildcard_filter, event: c5::events::evt984::event },
    EvCase { contract: 5, name: "Evt985", camel: "Evt985", parse: p985, filter: f985, wildcard: c5::events::evt985::wildcard_filter, event: c5::events::evt985::event },
    EvCase { contract: 5, name: "Evt986", camel: "Evt986", parse: p986, filter: f986, wildcard: c5::events::evt986::wildcard_filter, event: c5::events::evt986::event },
    EvCase { contract: 5, name: "Evt987", camel: "Evt987", parse: p987, filter: f987, wildcard: c5::events::evt987::wildcard_filter, event: c5::events::evt987::event },
    EvCase { contract: 5, name: "Evt988", camel: "Evt988", parse: p988, filter: f988, wildcard: c5::events::evt988::wildcard_filter, event: c5::events::evt988::event },
    EvCase { contract: 5, name: "Evt989", camel: "Evt989", parse: p989, filter: f989, wildcard: c5::events::evt989::wildcard_filter, event: c5::events::evt989::event },
    EvCase { contract: 5, name: "Evt990", camel: "Evt990", parse: p990, filter: f990, wildcard: c5::events::evt990::wildcard_filter, event: c5::events::evt990::event },
    EvCase { contract: 5, name: "Evt991", camel: "Evt991", parse: p991, filter: f991, wildcard: c5::events::evt991::wildcard_filter, event: c5::events::evt991::event },
    EvCase { contract: 5, name: "Evt992", camel: "Evt992", parse: p992, filter: f992, wildcard: c5::events::evt992::wildcard_filter, event: c5::events::evt992::event },
    EvCase { contract: 5, name: "Evt993", camel: "Evt993", parse: p993, filter: f993, wildcard: c5::events::evt993::wildcard_filter, event: c5::events::evt993::event },
    EvCase { contract: 5, name: "Evt994", camel: "Evt994", parse: p994, filter: f994, wildcard: c5::events::evt994::wildcard_filter, event: c5::events::evt994::event },
    EvCase { contract: 5, name: "Evt995", camel: "Evt995", parse: p995, filter: f995, wildcard: c5::events::evt995::wildcard_filter, event: c5::events::evt995::event },
    EvCase { contract: 5, name: "Evt996", camel: "Evt996", parse: p996, filter: f996, wildcard: c5::events::evt996::wildcard_filter, event: c5::events::evt996::event },
    EvCase { contract: 5, name: "Evt997", camel: "Evt997", parse: p997, filter: f997, wildcard: c5::events::evt997::wildcard_filter, event: c5::events::evt997::event },
    EvCase { contract: 5, name: "Evt998", camel: "Evt998", parse: p998, filter: f998, wildcard: c5::events::evt998::wildcard_filter, event: c5::events::evt998::event },
    EvCase { contract: 5, name: "Evt999", camel: "Evt999", parse: p999, filter: f999, wildcard: c5::events::evt999::wildcard_filter, event: c5::events::evt999::event },
    EvCase { contract: 5, name: "Evt1000", camel: "Evt1000", parse: p1000, filter: f1000, wildcard: c5::events::evt1000::wildcard_filter, event: c5::events::evt1000::event },
    EvCase { contract: 5, name: "Evt1001", camel: "Evt1001", parse: p1001, filter: f1001, wildcard: c5::events::evt1001::wildcard_filter, event: c5::events::evt1001::event },
    EvCase { contract: 5, name: "Evt1002", camel: "Evt1002", parse: p1002, filter: f1002, wildcard: c5::events::evt1002::wildcard_filter, event: c5::events::evt1002::event },
    EvCase { contract: 5, name: "Evt1003", camel: "Evt1003", parse: p1003, filter: f1003, wildcard: c5::events::evt1003::wildcard_filter, event: c5::events::evt1003::event },
    EvCase { contract: 5, name: "Evt1004", camel: "Evt1004", parse: p1004, filter: f1004, wildcard: c5::events::evt1004::wildcard_filter, event: c5::events::evt1004::event },
    EvCase { contract: 5, name: "Evt1005", camel: "Evt1005", parse: p1005, filter: f1005, wildcard: c5::events::evt1005::wildcard_filter, event: c5::events::evt1005::event },
    EvCase { contract: 5, name: "Evt1006", camel: "Evt1006", parse: p1006, filter: f1006, wildcard: c5::events::evt1006::wildcard_filter, event: c5::events::evt1006::event },
    EvCase { contract: 5, name: "Evt1007", camel: "Evt1007", parse: p1007, filter: f1007, wildcard: c5::events::evt1007::wildcard_filter, event: c5::events::evt1007::event },
    EvCase { contract: 6, name: "Evt1008", camel: "Evt1008", parse: p1008, filter: f1008, wildcard: c6::events::evt1008::wildcard_filter, event: c6::events::evt1008::event },
    EvCase { contract: 6, name: "Evt1009", camel: "Evt1009", parse: p1009, filter: f1009, wildcard: c6::events::evt1009::wildcard_filter, event: c6::events::evt1009::event },
    EvCase { contract: 6, name: "Evt1010", camel: "Evt1010", parse: p1010, filter: f1010, wildcard: c6::events::evt1010::wildcard_filter, event: c6::events::evt1010::event },
    EvCase { contract: 6, name: "Evt1011", camel: "Evt1011", parse: p1011, filter: f1011, wildcard: c6::events::evt1011::wildcard_filter, event: c6::events::evt1011::event },
    EvCase { contract: 6, name: "Evt1012", camel: "Evt1012", parse: p1012, filter: f1012, wildcard: c6::events::evt1012::wildcard_filter, event: c6::events::evt1012::event },
    EvCase { contract: 6, name: "Evt1013", camel: "Evt1013", parse: p1013, filter: f1013, wildcard: c6::events::evt1013::wildcard_filter, event: c6::events::evt1013::event },
    EvCase { contract: 6, name: "Evt1014", camel: "Evt1014", parse: p1014, filter: f1014, wildcard: c6::events::evt1014::wildcard_filter, event: c6::events::evt1014::event },
    EvCase { contract: 6, name: "Evt1015", camel: "Evt1015", parse: p1015, filter: f1015, wildcard: c6::events::evt1015::wildcard_filter, event: c6::events::evt1015::event },
    EvCase { contract: 6, name: "Evt1016", camel: "Evt1016", parse: p1016, filter: f1016, wildcard: c6::events::evt1016::wildcard_filter, event: c6::events::evt1016::event },
    EvCase { contract: 6, name: "Evt1017", camel: "Evt1017", parse: p1017, filter: f1017, wildcard: c6::events::evt1017::wildcard_filter, event: c6::events::evt1017::event },
    EvCase { contract: 6, name: "Evt1018", camel: "Evt1018", parse: p1018, filter: f1018, wildcard: c6::events::evt1018::wildcard_filter, event: c6::events::evt1018::event },
    EvCase { contract: 6, name: "Evt1019", camel: "Evt1019", parse: p1019, filter: f1019, wildcard: c6::events::evt1019::wildcard_filter, event: c6::events::evt1019::event },
    EvCase { contract: 6, name: "Evt1020", camel: "Evt1020", parse: p1020, filter: f1020, wildcard: c6::events::evt1020::wildcard_filter, event: c6::events::evt1020::event },
    EvCase { contract: 6, name: "Evt1021", camel: "Evt1021", parse: p1021, filter: f1021, wildcard: c6::events::evt1021::wildcard_filter, event: c6::events::evt1021::event },
    EvCase { contract: 6, name: "Evt1022", camel: "Evt1022", parse: p1022, filter: f1022, wildcard: c6::events::evt1022::wildcard_filter, event: c6::events::evt1022::event },
    EvCase { contract: 6, name: "Evt1023", camel: "Evt1023", parse: p1023, filter: f1023, wildcard: c6::events::evt1023::wildcard_filter, event: c6::events::evt1023::event },
    EvCase { contract: 6, name: "Evt1024", camel: "Evt1024", parse: p1024, filter: f1024, wildcard: c6::events::evt1024::wildcard_filter, event: c6::events::evt1024::event },
    EvCase { contract: 6, name: "Evt1025", camel: "Evt1025", parse: p1025, filter: f1025, wildcard: c6::events::evt1025::wildcard_filter, event: c6::events::evt1025::event },
    EvCase { contract: 6, name: "Evt1026", camel: "Evt1026", parse: p1026, filter: f1026, wildcard: c6::events::evt1026::wildcard_filter, event: c6::events::evt1026::event },
    EvCase { contract: 6, name: "Evt1027", camel: "Evt1027", parse: p1027, filter: f1027, wildcard: c6::events::evt1027::wildcard_filter, event: c6::events::evt1027::event },
    EvCase { contract: 6, name: "Evt1028", camel: "Evt1028", parse: p1028, filter: f1028, wildcard: c6::events::evt1028::wildcard_filter, event: c6::events::evt1028::event },
    EvCase { contract: 6, name: "Evt1029", camel: "Evt1029", parse: p1029, filter: f1029, wildcard: c6::events::evt1029::wildcard_filter, event: c6::events::evt1029::event },
    EvCase { contract: 6, name: "Evt1030", camel: "Evt1030", parse: p1030, filter: f1030, wildcard: c6::events::evt1030::wildcard_filter, event: c6::events::evt1030::event },
    EvCase { contract: 6, name: "Evt1031", camel: "Evt1031", parse: p1031, filter: f1031, wildcard: c6::events::evt1031::wildcard_filter, event: c6::events::evt1031::event },
    EvCase { contract: 7, name: "Evt1032", camel: "Evt1032", parse: p1032, filter: f1032, wildcard: c7::events::evt1032::wildcard_filter, event: c7::events::evt1032::event },
    EvCase { contract: 7, name: "Evt1033", camel: "Evt1033", parse: p1033, filter: f1033, wildcard: c7::events::evt1033::wildcard_filter, event: c7::events::evt1033::event },
    EvCase { contract: 7, name: "Evt1034", camel: "Evt1034", parse: p1034, filter: f1034, wildcard: c7::events::evt1034::wildcard_filter, event: c7::events::evt1034::event },
    EvCase { contract: 7, name: "Evt1035", camel: "Evt1035", parse: p1035, filter: f1035, wildcard: c7::events::evt1035::wildcard_filter, event: c7::events::evt1035::event },
    EvCase { contract: 7, name: "Evt1036", camel: "Evt1036", parse: p1036, filter: f1036, wildcard: c7::events::evt1036::wildcard_filter, event: c7::events::evt1036::event },
    EvCase { contract: 7, name: "Evt1037", camel: "Evt1037", parse: p1037, filter: f1037, wildcard: c7::events::evt1037::wildcard_filter, event: c7::events::evt1037::event },
    EvCase { contract: 7, name: "Evt1038", camel: "Evt1038", parse: p1038, filter: f1038, wildcard: c7::events::evt1038::wildcard_filter, event: c7::events::evt1038::event },
    EvCase { contract: 7, name: "Evt1039", camel: "Evt1039", parse: p1039, filter: f1039, wildcard: c7::events::evt1039::wildcard_filter, event: c7::events::evt1039::event },
    EvCase { contract: 7, name: "Evt1040", camel: "Evt1040", parse: p1040, filter: f1040, wildcard: c7::events::evt1040::wildcard_filter, event: c7::events::evt1040::event },
    EvCase { contract: 7, name: "Evt1041", camel: "Evt1041", parse: p1041, filter: f1041, wildcard: c7::events::evt1041::wildcard_filter, event: c7::events::evt1041::event },
    EvCase { contract: 7, name: "Evt1042", camel: "Evt1042", parse: p1042, filter: f1042, wildcard: c7::events::evt1042::wildcard_filter, event: c7::events::evt1042::event },
    EvCase { contract: 7, name: "Evt1043", camel: "Evt1043", parse: p1043, filter: f1043, wildcard: c7::events::evt1043::wildcard_filter, event: c7::events::evt1043::event },
    EvCase { contract: 7, name: "Evt1044", camel: "Evt1044", parse: p1044, filter: f1044, wildcard: c7::events::evt1044::wildcard_filter, event: c7::events::evt1044::event },
    EvCase { contract: 7, name: "Evt1045", camel: "Evt1045", parse: p1045, filter: f1045, wildcard: c7::events::evt1045::wildcard_filter, event: c7::events::evt1045::event },
    EvCase { contract: 7, name: "Evt1046", camel: "Evt1046", parse: p1046, filter: f1046, wildcard: c7::events::evt1046::wildcard_filter, event: c7::events::evt1046::event },
    EvCase { contract: 7, name: "Evt1047", camel: "Evt1047", parse: p1047, filter: f1047, wildcard: c7::events::evt1047::wildcard_filter, event: c7::events::evt1047::event },
    EvCase { contract: 7, name: "Evt1048", camel: "Evt1048", parse: p1048, filter: f1048, wildcard: c7::events::evt1048::wildcard_filter, event: c7::events::evt1048::event },
    EvCase { contract: 7, name: "Evt1049", camel: "Evt1049", parse: p1049, filter: f1049, wildcard: c7::events::evt1049::wildcard_filter, event: c7::events::evt1049::event },
    EvCase { contract: 7, name: "Evt1050", camel: "Evt1050", parse: p1050, filter: f1050, wildcard: c7::events::evt1050::wildcard_filter, event: c7::events::evt1050::event },
    EvCase { contract: 7, name: "Evt1051", camel: "Evt1051", parse: p1051, filter: f1051, wildcard: c7::events::evt1051::wildcard_filter, event: c7::events::evt1051::event },
    EvCase { contract: 7, name: "Evt1052", camel: "Evt1052", parse: p1052, filter: f1052, wildcard: c7::events::evt1052::wildcard_filter, event: c7::events::evt1052::event },
    EvCase { contract: 7, name: "Evt1053", camel: "Evt1053", parse: p1053, filter: f1053, wildcard: c7::events::evt1053::wildcard_filter, event: c7::events::evt1053::event },
    EvCase { contract: 7, name: "Evt1054", camel: "Evt1054", parse: p1054, filter: f1054, wildcard: c7::events::evt1054::wildcard_filter, event: c7::events::evt1054::event },
    EvCase { contract: 7, name: "Evt1055", camel: "Evt1055", parse: p1055, filter: f1055, wildcard: c7::events::evt1055::wildcard_filter, event: c7::events::evt1055::event },
    EvCase { contract: 7, name: "Evt1056", camel: "Evt1056", parse: p1056, filter: f1056, wildcard: c7::events::evt1056::wildcard_filter, event: c7::events::evt1056::event },
    EvCase { contract: 7, name: "Evt1057", camel: "Evt1057", parse: p1057, filter: f1057, wildcard: c7::events::evt1057::wildcard_filter, event: c7::events::evt1057::event },
    EvCase { contract: 7, name: "Evt1058", camel: "Evt1058", parse: p1058, filter: f1058, wildcard: c7::events::evt1058::wildcard_filter, event: c7::events::evt1058::event },
    EvCase { contract: 7, name: "Evt1059", camel: "Evt1059", parse: p1059, filter: f1059, wildcard: c7::events::evt1059::wildcard_filter, event: c7::events::evt1059::event },
    EvCase { contract: 7, name: "Evt1060", camel: "Evt1060", parse: p1060, filter: f1060, wildcard: c7::events::evt1060::wildcard_filter, event: c7::events::evt1060::event },
    EvCase { contract: 7, name: "Evt1061", camel: "Evt1061", parse: p1061, filter: f1061, wildcard: c7::events::evt1061::wildcard_filter, event: c7::events::evt1061::event },
    EvCase { contract: 7, name: "Evt1062", camel: "Evt1062", parse: p1062, filter: f1062, wildcard: c7::events::evt1062::wildcard_filter, event: c7::events::evt1062::event },
    EvCase { contract: 7, name: "Evt1063", camel: "Evt1063", parse: p1063, filter: f1063, wildcard: c7::events::evt1063::wildcard_filter, event: c7::events::evt1063::event },
    EvCase { contract: 7, name: "Evt1064", camel: "Evt1064", parse: p1064, filter: f1064, wildcard: c7::events::evt1064::wildcard_filter, event: c7::events::evt1064::event },
    EvCase { contract: 7, name: "Evt1065", camel: "Evt1065", parse: p1065, filter: f1065, wildcard: c7::events::evt1065::wildcard_filter, event: c7::events::evt1065::event },
    EvCase { contract: 7, name: "Evt1066", camel: "Evt1066", parse: p1066, filter: f1066, wildcard: c7::events::evt1066::wildcard_filter, event: c7::events::evt1066::event },
    EvCase { contract: 7, name: "Evt1067", camel: "Evt1067", parse: p1067, filter: f1067, wildcard: c7::events::evt1067::wildcard_filter, event: c7::events::evt1067::event },
    EvCase { contract: 7, name: "Evt1068", camel: "Evt1068", parse: p1068, filter: f1068, wildcard: c7::events::evt1068::wildcard_filter, event: c7::events::evt1068::event },
    EvCase { contract: 7, name: "Evt1069", camel: "Evt1069", parse: p1069, filter: f1069, wildcard: c7::events::evt1069::wildcard_filter, event: c7::events::evt1069::event },
    EvCase { contract: 7, name: "Evt1070", camel: "Evt1070", parse: p1070, filter: f1070, wildcard: c7::events::evt1070::wildcard_filter, event: c7::events::evt1070::event },
    EvCase { contract: 7, name: "Evt1071", camel: "Evt1071", parse: p1071, filter: f1071, wildcard: c7::events::evt1071::wildcard_filter, event: c7::events::evt1071::event },
    EvCase { contract: 7, name: "Evt1072", camel: "Evt1072", parse: p1072, filter: f1072, wildcard: c7::events::evt1072::wildcard_filter, event: c7::events::evt1072::event },
    EvCase { contract: 7, name: "Evt1073", camel: "Evt1073", parse: p1073, filter: f1073, wildcard: c7::events::evt1073::wildcard_filter, event: c7::events::evt1073::event },
    EvCase { contract: 7, name: "Evt1074", camel: "Evt1074", parse: p1074, filter: f1074, wildcard: c7::events::evt1074::wildcard_filter, event: c7::events::evt1074::event },
    EvCase { contract: 7, name: "Evt1075", camel: "Evt1075", parse: p1075, filter: f1075, wildcard: c7::events::evt1075::wildcard_filter, event: c7::events::evt1075::event },
    EvCase { contract: 7, name: "Evt1076", camel: "Evt1076", parse: p1076, filter: f1076, wildcard: c7::events::evt1076::wildcard_filter, event: c7::events::evt1076::event },
    EvCase { contract: 7, name: "Evt1077", camel: "Evt1077", parse: p1077, filter: f1077, wildcard: c7::events::evt1077::wildcard_filter, event: c7::events::evt1077::event },
    EvCase { contract: 7, name: "Evt1078", camel: "Evt1078", parse: p1078, filter: f1078, wildcard: c7::events::evt1078::wildcard_filter, event: c7::events::evt1078::event },
    EvCase { contract: 7, name: "Evt1079", camel: "Evt1079", parse: p1079, filter: f1079, wildcard: c7::events::evt1079::wildcard_filter, event: c7::events::evt1079::event },
    EvCase { contract: 7, name: "Evt1080", camel: "Evt1080", parse: p1080, filter: f1080, wildcard: c7::events::evt1080::wildcard_filter, event: c7::events::evt1080::event },
    EvCase { contract: 7, name: "Evt1081", camel: "Evt1081", parse: p1081, filter: f1081, wildcard: c7::events::evt1081::wildcard_filter, event: c7::events::evt1081::event },
    EvCase { contract: 7, name: "Evt1082", camel: "Evt1082", parse: p1082, filter: f1082, wildcard: c7::events::evt1082::wildcard_filter, event: c7::events::evt1082::event },
    EvCase { contract: 7, name: "Evt1083", camel: "Evt1083", parse: p1083, filter: f1083, wildcard: c7::events::evt1083::wildcard_filter, event: c7::events::evt1083::event },
    EvCase { contract: 7, name: "Evt1084", camel: "Evt1084", parse: p1084, filter: f1084, wildcard: c7::events::evt1084::wildcard_filter, event: c7::events::evt1084::event },
    EvCase { contract: 7, name: "Evt1085", camel: "Evt1085", parse: p1085, filter: f1085, wildcard: c7::events::evt1085::wildcard_filter, event: c7::events::evt1085::event },
    EvCase { contract: 7, name: "Evt1086", camel: "Evt1086", parse: p1086, filter: f1086, wildcard: c7::events::evt1086::wildcard_filter, event: c7::events::evt1086::event },
    EvCase { contract: 7, name: "Evt1087", camel: "Evt1087", parse: p1087, filter: f1087, wildcard: c7::events::evt1087::wildcard_filter, event: c7::events::evt1087::event },
    EvCase { contract: 7, name: "Evt1088", camel: "Evt1088", parse: p1088, filter: f1088, wildcard: c7::events::evt1088::wildcard_filter, event: c7::events::evt1088::event },
    EvCase { contract: 7, name: "Evt1089", camel: "Evt1089", parse: p1089, filter: f1089, wildcard: c7::events::evt1089::wildcard_filter, event: c7::events::evt1089::event },
    EvCase { contract: 7, name: "Evt1090", camel: "Evt1090", parse: p1090, filter: f1090, wildcard: c7::events::evt1090::wildcard_filter, event: c7::events::evt1090::event },
    EvCase { contract: 7, name: "Evt1091", camel: "Evt1091", parse: p1091, filter: f1091, wildcard: c7::events::evt1091::wildcard_filter, event: c7::events::evt1091::event },
    EvCase { contract: 7, name: "Evt1092", camel: "Evt1092", parse: p1092, filter: f1092, wildcard: c7::events::evt1092::wildcard_filter, event: c7::events::evt1092::event },
    EvCase { contract: 7, name: "Evt1093", camel: "Evt1093", parse: p1093, filter: f1093, wildcard: c7::events::evt1093::wildcard_filter, event: c7::events::evt1093::event },
    EvCase { contract: 7, name: "Evt1094", camel: "Evt1094", parse: p1094, filter: f1094, wildcard: c7::events::evt1094::wildcard_filter, event: c7::events::evt1094::event },
    EvCase { contract: 7, name: "Evt1095", camel: "Evt1095", parse: p1095, filter: f1095, wildcard: c7::events::evt1095::wildcard_filter, event: c7::events::evt1095::event },
    EvCase { contract: 7, name: "Evt1096", camel: "Evt1096", parse: p1096, filter: f1096, wildcard: c7::events::evt1096::wildcard_filter, event: c7::events::evt1096::event },
    EvCase { contract: 7, name: "Evt1097", camel: "Evt1097", parse: p1097, filter: f1097, wildcard: c7::events::evt1097::wildcard_filter, event: c7::events::evt1097::event },
    EvCase { contract: 7, name: "Evt1098", camel: "Evt1098", parse: p1098, filter: f1098, wildcard: c7::events::evt1098::wildcard_filter, event: c7::events::evt1098::event },
    EvCase { contract: 7, name: "Evt1099", camel: "Evt1099", parse: p1099, filter: f1099, wildcard: c7::events::evt1099::wildcard_filter, event: c7::events::evt1099::event },
    EvCase { contract: 7, name: "Evt1100", camel: "Evt1100", parse: p1100, filter: f1100, wildcard: c7::events::evt1100::wildcard_filter, event: c7::events::evt1100::event },
    EvCase { contract: 7, name: "Evt1101", camel: "Evt1101", parse: p1101, filter: f1101, wildcard: c7::events::evt1101::wildcard_filter, event: c7::events::evt1101::event },
    EvCase { contract: 7, name: "Evt1102", camel: "Evt1102", parse: p1102, filter: f1102, wildcard: c7::events::evt1102::wildcard_filter, event: c7::events::evt1102::event },
    EvCase { contract: 7, name: "Evt1103", camel: "Evt1103", parse: p1103, filter: f1103, wildcard: c7::events::evt1103::wildcard_filter, event: c7::events::evt1103::event },
    EvCase { contract: 7, name: "Evt1104", camel: "Evt1104", parse: p1104, filter: f1104, wildcard: c7::events::evt1104::wildcard_filter, event: c7::events::evt1104::event },
    EvCase { contract: 7, name: "Evt1105", camel: "Evt1105", parse: p1105, filter: f1105, wildcard: c7::events::evt1105::wildcard_filter, event: c7::events::evt1105::event },
    EvCase { contract: 7, name: "Evt1106", camel: "Evt1106", parse: p1106, filter: f1106, wildcard: c7::events::evt1106::wildcard_filter, event: c7::events::evt1106::event },
    EvCase { contract: 7, name: "Evt1107", camel: "Evt1107", parse: p1107, filter: f1107, wildcard: c7::events::evt1107::wildcard_filter, event: c7::events::evt1107::event },
    EvCase { contract: 7, name: "Evt1108", camel: "Evt1108", parse: p1108, filter: f1108, wildcard: c7::events::evt1108::wildcard_filter, event: c7::events::evt1108::event },
    EvCase { contract: 7, name: "Evt1109", camel: "Evt1109", parse: p1109, filter: f1109, wildcard: c7::events::evt1109::wildcard_filter, event: c7::events::evt1109::event },
    EvCase { contract: 7, name: "Evt1110", camel: "Evt1110", parse: p1110, filter: f1110, wildcard: c7::events::evt1110::wildcard_filter, event: c7::events::evt1110::event },
    EvCase { contract: 7, name: "Evt1111", camel: "Evt1111", parse: p1111, filter: f1111, wildcard: c7::events::evt1111::wildcard_filter, event: c7::events::evt1111::event },
    EvCase { contract: 7, name: "Evt1112", camel: "Evt1112", parse: p1112, filter: f1112, wildcard: c7::events::evt1112::wildcard_filter, event: c7::events::evt1112::event },
    EvCase { contract: 7, name: "Evt1113", camel: "Evt1113", parse: p1113, filter: f1113, wildcard: c7::events::evt1113::wildcard_filter, event: c7::events::evt1113::event },
    EvCase { contract: 7, name: "Evt1114", camel: "Evt1114", parse: p1114, filter: f1114, wildcard: c7::events::evt1114::wildcard_filter, event: c7::events::evt1114::event },
    EvCase { contract: 7, name: "Evt1115", camel: "Evt1115", parse: p1115, filter: f1115, wildcard: c7::events::evt1115::wildcard_filter, event: c7::events::evt1115::event },
    EvCase { contract: 7, name: "Evt1116", camel: "Evt1116", parse: p1116, filter: f1116, wildcard: c7::events::evt1116::wildcard_filter, event: c7::events::evt1116::event },
    EvCase { contract: 7, name: "Evt1117", camel: "Evt1117", parse: p1117, filter: f1117, wildcard: c7::events::evt1117::wildcard_filter, event: c7::events::evt1117::event },
    EvCase { contract: 7, name: "Evt1118", camel: "Evt1118", parse: p1118, filter: f1118, wildcard: c7::events::evt1118::wildcard_filter, event: c7::events::evt1118::event },
    EvCase { contract: 7, name: "Evt1119", camel: "Evt1119", parse: p1119, filter: f1119, wildcard: c7::events::evt1119::wildcard_filter, event: c7::events::evt1119::event },
    EvCase { contract: 7, name: "Evt1120", camel: "Evt1120", parse: p1120, filter: f1120, wildcard: c7::events::evt1120::wildcard_filter, event: c7::events::evt1120::event },
    EvCase { contract: 7, name: "Evt1121", camel: "Evt1121", parse: p1121, filter: f1121, wildcard: c7::events::evt1121::wildcard_filter, event: c7::events::evt1121::event },
    EvCase { contract: 7, name: "Evt1122", camel: "Evt1122", parse: p1122, filter: f1122, wildcard: c7::events::evt1122::wildcard_filter, event: c7::events::evt1122::event },
    EvCase { contract: 7, name: "Evt1123", camel: "Evt1123", parse: p1123, filter: f1123, wildcard: c7::events::evt1123::wildcard_filter, event: c7::events::evt1123::event },
    EvCase { contract: 7, name: "Evt1124", camel: "Evt1124", parse: p1124, filter: f1124, wildcard: c7::events::evt1124::wildcard_filter, event: c7::events::evt1124::event },
    EvCase { contract: 7, name: "Evt1125", camel: "Evt1125", parse: p1125, filter: f1125, wildcard: c7::events::evt1125::wildcard_filter, event: c7::events::evt1125::event },
    EvCase { contract: 7, name: "Evt1126", camel: "Evt1126", parse: p1126, filter: f1126, wildcard: c7::events::evt1126::wildcard_filter, event: c7::events::evt1126::event },
    EvCase { contract: 7, name: "Evt1127", camel: "Evt1127", parse: p1127, filter: f1127, wildcard: c7::events::evt1127::wildcard_filter, event: c7::events::evt1127::event },
    EvCase { contract: 8, name: "Evt1128", camel: "Evt1128", parse: p1128, filter: f1128, wildcard: c8::events::evt1128::wildcard_filter, event: c8::events::evt1128::event },
    EvCase { contract: 8, name: "Evt1129", camel: "Evt1129", parse: p1129, filter: f1129, wildcard: c8::events::evt1129::wildcard_filter, event: c8::events::evt1129::event },
    EvCase { contract: 8, name: "Evt1130", camel: "Evt1130", parse: p1130, filter: f1130, wildcard: c8::events::evt1130::wildcard_filter, event: c8::events::evt1130::event },
    EvCase { contract: 8, name: "Evt1131", camel: "Evt1131", parse: p1131, filter: f1131, wildcard: c8::events::evt1131::wildcard_filter, event: c8::events::evt1131::event },
    EvCase { contract: 8, name: "Evt1132", camel: "Evt1132", parse: p1132, filter: f1132, wildcard: c8::events::evt1132::wildcard_filter, event: c8::events::evt1132::event },
    EvCase { contract: 8, name: "Evt1133", camel: "Evt1133", parse: p1133, filter: f1133, wildcard: c8::events::evt1133::wildcard_filter, event: c8::events::evt1133::event },
    EvCase { contract: 8, name: "Evt1134", camel: "Evt1134", parse: p1134, filter: f1134, wildcard: c8::events::evt1134::wildcard_filter, event: c8::events::evt1134::event },
    EvCase { contract: 8, name: "Evt1135", camel: "Evt1135", parse: p1135, filter: f1135, wildcard: c8::events::evt1135::wildcard_filter, event: c8::events::evt1135::event },
    EvCase { contract: 8, name: "Evt1136", camel: "Evt1136", parse: p1136, filter: f1136, wildcard: c8::events::evt1136::wildcard_filter, event: c8::events::evt1136::event },
    EvCase { contract: 8, name: "Evt1137", camel: "Evt1137", parse: p1137, filter: f1137, wildcard: c8::events::evt1137::wildcard_filter, event: c8::events::evt1137::event },
    EvCase { contract: 8, name: "Evt1138", camel: "Evt1138", parse: p1138, filter: f1138, wildcard: c8::events::evt1138::wildcard_filter, event: c8::events::evt1138::event },
    EvCase { contract: 8, name: "Evt1139", camel: "Evt1139", parse: p1139, filter: f1139, wildcard: c8::events::evt1139::wildcard_filter, event: c8::events::evt1139::event },
    EvCase { contract: 8, name: "Evt1140", camel: "Evt1140", parse: p1140, filter: f1140, wildcard: c8::events::evt1140::wildcard_filter, event: c8::events::evt1140::event },
    EvCase { contract: 8, name: "Evt1141", camel: "Evt1141", parse: p1141, filter: f1141, wildcard: c8::events::evt1141::wildcard_filter, event: c8::events::evt1141::event },
    EvCase { contract: 8, name: "Evt1142", camel: "Evt1142", parse: p1142, filter: f1142, wildcard: c8::events::evt1142::wildcard_filter, event: c8::events::evt1142::event },
    EvCase { contract: 8, name: "Evt1143", camel: "Evt1143", parse: p1143, filter: f1143, wildcard: c8::events::evt1143::wildcard_filter, event: c8::events::evt1143::event },
    EvCase { contract: 8, name: "Evt1144", camel: "Evt1144", parse: p1144, filter: f1144, wildcard: c8::events::evt1144::wildcard_filter, event: c8::events::evt1144::event },
    EvCase { contract: 8, name: "Evt1145", camel: "Evt1145", parse: p1145, filter: f1145, wildcard: c8::events::evt1145::wildcard_filter, event: c8::events::evt1145::event },
    EvCase { contract: 8, name: "Evt1146", camel: "Evt1146", parse: p1146, filter: f1146, wildcard: c8::events::evt1146::wildcard_filter, event: c8::events::evt1146::event },
    EvCase { contract: 8, name: "Evt1147", camel: "Evt1147", parse: p1147, filter: f1147, wildcard: c8::events::evt1147::wildcard_filter, event: c8::events::evt1147::event },
    EvCase { contract: 8, name: "Evt1148", camel: "Evt1148", parse: p1148, filter: f1148, wildcard: c8::events::evt1148::wildcard_filter, event: c8::events::evt1148::event },
    EvCase { contract: 8, name: "Evt1149", camel: "Evt1149", parse: p1149, filter: f1149, wildcard: c8::events::evt1149::wildcard_filter, event: c8::events::evt1149::event },
    EvCase { contract: 8, name: "Evt1150", camel: "Evt1150", parse: p1150, filter: f1150, wildcard: c8::events::evt1150::wildcard_filter, event: c8::events::evt1150::event },
    EvCase { contract: 8, name: "Evt1151", camel: "Evt1151", parse: p1151, filter: f1151, wildcard: c8::events::evt1151::wildcard_filter, event: c8::events::evt1151::event },
    EvCase { contract: 8, name: "Evt1152", camel: "Evt1152", parse: p1152, filter: f1152, wildcard: c8::events::evt1152::wildcard_filter, event: c8::events::evt1152::event },
    EvCase { contract: 8, name: "Evt1153", camel: "Evt1153", parse: p1153, filter: f1153, wildcard: c8::events::evt1153::wildcard_filter, event: c8::events::evt1153::event },
    EvCase { contract: 8, name: "Evt1154", camel: "Evt1154", parse: p1154, filter: f1154, wildcard: c8::events::evt1154::wildcard_filter, event: c8::events::evt1154::event },
    EvCase { contract: 8, name: "Evt1155", camel: "Evt1155", parse: p1155, filter: f1155, wildcard: c8::events::evt1155::wildcard_filter, event: c8::events::evt1155::event },
    EvCase { contract: 8, name: "Evt1156", camel: "Evt1156", parse: p1156, filter: f1156, wildcard: c8::events::evt1156::wildcard_filter, event: c8::events::evt1156::event },
    EvCase { contract: 8, name: "Evt1157", camel: "Evt1157", parse: p1157, filter: f1157, wildcard: c8::events::evt1157::wildcard_filter, event: c8::events::evt1157::event },
    EvCase { contract: 8, name: "Evt1158", camel: "Evt1158", parse: p1158, filter: f1158, wildcard: c8::events::evt1158::wildcard_filter, event: c8::events::evt1158::event },
    EvCase { contract: 8, name: "Evt1159", camel: "Evt1159", parse: p1159, filter: f1159, wildcard: c8::events::evt1159::wildcard_filter, event: c8::events::evt1159::event },
    EvCase { contract: 8, name: "Evt1160", camel: "Evt1160", parse: p1160, filter: f1160, wildcard: c8::events::evt1160::wildcard_filter, event: c8::events::evt1160::event },
    EvCase { contract: 8, name: "Evt1161", camel: "Evt1161", parse: p1161, filter: f1161, wildcard: c8::events::evt1161::wildcard_filter, event: c8::events::evt1161::event },
    EvCase { contract: 8, name: "Evt1162", camel: "Evt1162", parse: p1162, filter: f1162, wildcard: c8::events::evt1162::wildcard_filter, event: c8::events::evt1162::event },
    EvCase { contract: 8, name: "Evt1163", camel: "Evt1163", parse: p1163, filter: f1163, wildcard: c8::events::evt1163::wildcard_filter, event: c8::events::evt1163::event },
    EvCase { contract: 8, name: "Evt1164", camel: "Evt1164", parse: p1164, filter: f1164, wildcard: c8::events::evt1164::wildcard_filter, event: c8::events::evt1164::event },
    EvCase { contract: 8, name: "Evt1165", camel: "Evt1165", parse: p1165, filter: f1165, wildcard: c8::events::evt1165::wildcard_filter, event: c8::events::evt1165::event },
    EvCase { contract: 8, name: "Evt1166", camel: "Evt1166", parse: p1166, filter: f1166, wildcard: c8::events::evt1166::wildcard_filter, event: c8::events::evt1166::event },
    EvCase { contract: 8, name: "Evt1167", camel: "Evt1167", parse: p1167, filter: f1167, wildcard: c8::events::evt1167::wildcard_filter, event: c8::events::evt1167::event },
    EvCase { contract: 8, name: "Evt1168", camel: "Evt1168", parse: p1168, filter: f1168, wildcard: c8::events::evt1168::wildcard_filter, event: c8::events::evt1168::event },
    EvCase { contract: 8, name: "Evt1169", camel: "Evt1169", parse: p1169, filter: f1169, wildcard: c8::events::evt1169::wildcard_filter, event: c8::events::evt1169::event },
    EvCase { contract: 8, name: "Evt1170", camel: "Evt1170", parse: p1170, filter: f1170, wildcard: c8::events::evt1170::wildcard_filter, event: c8::events::evt1170::event },
    EvCase { contract: 8, name: "Evt1171", camel: "Evt1171", parse: p1171, filter: f1171, wildcard: c8::events::evt1171::wildcard_filter, event: c8::events::evt1171::event },
    EvCase { contract: 8, name: "Evt1172", camel: "Evt1172", parse: p1172, filter: f1172, wildcard: c8::events::evt1172::wildcard_filter, event: c8::events::evt1172::event },
    EvCase { contract: 8, name: "Evt1173", camel: "Evt1173", parse: p1173, filter: f1173, wildcard: c8::events::evt1173::wildcard_filter, event: c8::events::evt1173::event },
    EvCase { contract: 8, name: "Evt1174", camel: "Evt1174", parse: p1174, filter: f1174, wildcard: c8::events::evt1174::wildcard_filter, event: c8::events::evt1174::event },
    EvCase { contract: 8, name: "Evt1175", camel: "Evt1175", parse: p1175, filter: f1175, wildcard: c8::events::evt1175::wildcard_filter, event: c8::events::evt1175::event },
    EvCase { contract: 8, name: "Evt1176", camel: "Evt1176", parse: p1176, filter: f1176, wildcard: c8::events::evt1176::wildcard_filter, event: c8::events::evt1176::event },
    EvCase { contract: 8, name: "Evt1177", camel: "Evt1177", parse: p1177, filter: f1177, wildcard: c8::events::evt1177::wildcard_filter, event: c8::events::evt1177::event },
    EvCase { contract: 8, name: "Evt1178", camel: "Evt1178", parse: p1178, filter: f1178, wildcard: c8::events::evt1178::wildcard_filter, event: c8::events::evt1178::event },
    EvCase { contract: 8, name: "Evt1179", camel: "Evt1179", parse: p1179, filter: f1179, wildcard: c8::events::evt1179::wildcard_filter, event: c8::events::evt1179::event },
    EvCase { contract: 8, name: "Evt1180", camel: "Evt1180", parse: p1180, filter: f1180, wildcard: c8::events::evt1180::wildcard_filter, event: c8::events::evt1180::event },
    EvCase { contract: 8, name: "Evt1181", camel: "Evt1181", parse: p1181, filter: f1181, wildcard: c8::events::evt1181::wildcard_filter, event: c8::events::evt1181::event },
    EvCase { contract: 8, name: "Evt1182", camel: "Evt1182", parse: p1182, filter: f1182, wildcard: c8::events::evt1182::wildcard_filter, event: c8::events::evt1182::event },
    EvCase { contract: 8, name: "Evt1183", camel: "Evt1183", parse: p1183, filter: f1183, wildcard: c8::events::evt1183::wildcard_filter, event: c8::events::evt1183::event },
    EvCase { contract: 8, name: "Evt1184", camel: "Evt1184", parse: p1184, filter: f1184, wildcard: c8::events::evt1184::wildcard_filter, event: c8::events::evt1184::event },
    EvCase { contract: 8, name: "Evt1185", camel: "Evt1185", parse: p1185, filter: f1185, wildcard: c8::events::evt1185::wildcard_filter, event: c8::events::evt1185::event },
    EvCase { contract: 8, name: "Evt1186", camel: "Evt1186", parse: p1186, filter: f1186, wildcard: c8::events::evt1186::wildcard_filter, event: c8::events::evt1186::event },
    EvCase { contract: 8, name: "Evt1187", camel: "Evt1187", parse: p1187, filter: f1187, wildcard: c8::events::evt1187::wildcard_filter, event: c8::events::evt1187::event },
    EvCase { contract: 8, name: "Evt1188", camel: "Evt1188", parse: p1188, filter: f1188, wildcard: c8::events::evt1188::wildcard_filter, event: c8::events::evt1188::event },
    EvCase { contract: 8, name: "Evt1189", camel: "Evt1189", parse: p1189, filter: f1189, wildcard: c8::events::evt1189::wildcard_filter, event: c8::events::evt1189::event },
    EvCase { contract: 8, name: "Evt1190", camel: "Evt1190", parse: p1190, filter: f1190, wildcard: c8::events::evt1190::wildcard_filter, event: c8::events::evt1190::event },
    EvCase { contract: 8, name: "Evt1191", camel: "Evt1191", parse: p1191, filter: f1191, wildcard: c8::events::evt1191::wildcard_filter, event: c8::events::evt1191::event },
    EvCase { contract: 8, name: "Evt1192", camel: "Evt1192", parse: p1192, filter: f1192, wildcard: c8::events::evt1192::wildcard_filter, event: c8::events::evt1192::event },
    EvCase { contract: 8, name: "Evt1193", camel: "Evt1193", parse: p1193, filter: f1193, wildcard: c8::events::evt1193::wildcard_filter, event: c8::events::evt1193::event },
    EvCase { contract: 8, name: "Evt1194", camel: "Evt1194", parse: p1194, filter: f1194, wildcard: c8::events::evt1194::wildcard_filter, event: c8::events::evt1194::event },
    EvCase { contract: 8, name: "Evt1195", camel: "Evt1195", parse: p1195, filter: f1195, wildcard: c8::events::evt1195::wildcard_filter, event: c8::events::evt1195::event },
    EvCase { contract: 8, name: "Evt1196", camel: "Evt1196", parse: p1196, filter: f1196, wildcard: c8::events::evt1196::wildcard_filter, event: c8::events::evt1196::event },
    EvCase { contract: 8, name: "Evt1197", camel: "Evt1197", parse: p1197, filter: f1197, wildcard: c8::events::evt1197::wildcard_filter, event: c8::events::evt1197::event },
    EvCase { contract: 8, name: "Evt1198", camel: "Evt1198", parse: p1198, filter: f1198, wildcard: c8::events::evt1198::wildcard_filter, event: c8::events::evt1198::event },
    EvCase { contract: 8, name: "Evt1199", camel: "Evt1199", parse: p1199, filter: f1199, wildcard: c8::events::evt1199::wildcard_filter, event: c8::events::evt1199::event },
    EvCase { contract: 8, name: "Evt1200", camel: "Evt1200", parse: p1200, filter: f1200, wildcard: c8::events::evt1200::wildcard_filter, event: c8::events::evt1200::event },
    EvCase { contract: 8, name: "Evt1201", camel: "Evt1201", parse: p1201, filter: f1201, wildcard: c8::events::evt1201::wildcard_filter, event: c8::events::evt1201::event },
    EvCase { contract: 8, name: "Evt1202", camel: "Evt1202", parse: p1202, filter: f1202, wildcard: c8::events::evt1202::wildcard_filter, event: c8::events::evt1202::event },
    EvCase { contract: 8, name: "Evt1203", camel: "Evt1203", parse: p1203, filter: f1203, wildcard: c8::events::evt1203::wildcard_filter, event: c8::events::evt1203::event },
    EvCase { contract: 8, name: "Evt1204", camel: "Evt1204", parse: p1204, filter: f1204, wildcard: c8::events::evt1204::wildcard_filter, event: c8::events::evt1204::event },
    EvCase { contract: 8, name: "Evt1205", camel: "Evt1205", parse: p1205, filter: f1205, wildcard: c8::events::evt1205::wildcard_filter, event: c8::events::evt1205::event },
    EvCase { contract: 8, name: "Evt1206", camel: "Evt1206", parse: p1206, filter: f1206, wildcard: c8::events::evt1206::wildcard_filter, event: c8::events::evt1206::event },
    EvCase { contract: 8, name: "Evt1207", camel: "Evt1207", parse: p1207, filter: f1207, wildcard: c8::events::evt1207::wildcard_filter, event: c8::events::evt1207::event },
    EvCase { contract: 8, name: "Evt1208", camel: "Evt1208", parse: p1208, filter: f1208, wildcard: c8::events::evt1208::wildcard_filter, event: c8::events::evt1208::event },
    EvCase { contract: 8, name: "Evt1209", camel: "Evt1209", parse: p1209, filter: f1209, wildcard: c8::events::evt1209::wildcard_filter, event: c8::events::evt1209::event },
    EvCase { contract: 8, name: "Evt1210", camel: "Evt1210", parse: p1210, filter: f1210, wildcard: c8::events::evt1210::wildcard_filter, event: c8::events::evt1210::event },
    EvCase { contract: 8, name: "Evt1211", camel: "Evt1211", parse: p1211, filter: f1211, wildcard: c8::events::evt1211::wildcard_filter, event: c8::events::evt1211::event },
    EvCase { contract: 8, name: "Evt1212", camel: "Evt1212", parse: p1212, filter: f1212, wildcard: c8::events::evt1212::wildcard_filter, event: c8::events::evt1212::event },
    EvCase { contract: 8, name: "Evt1213", camel: "Evt1213", parse: p1213, filter: f1213, wildcard: c8::events::evt1213::wildcard_filter, event: c8::events::evt1213::event },
    EvCase { contract: 8, name: "Evt1214", camel: "Evt1214", parse: p1214, filter: f1214, wildcard: c8::events::evt1214::wildcard_filter, event: c8::events::evt1214::event },
    EvCase { contract: 8, name: "Evt1215", camel: "Evt1215", parse: p1215, filter: f1215, wildcard: c8::events::evt1215::wildcard_filter, event: c8::events::evt1215::event },
    EvCase { contract: 8, name: "Evt1216", camel: "Evt1216", parse: p1216, filter: f1216, wildcard: c8::events::evt1216::wildcard_filter, event: c8::events::evt1216::event },
    EvCase { contract: 8, name: "Evt1217", camel: "Evt1217", parse: p1217, filter: f1217, wildcard: c8::events::evt1217::wildcard_filter, event: c8::events::evt1217::event },
    EvCase { contract: 8, name: "Evt1218", camel: "Evt1218", parse: p1218, filter: f1218, wildcard: c8::events::evt1218::wildcard_filter, event: c8::events::evt1218::event },
    EvCase { contract: 8, name: "Evt1219", camel: "Evt1219", parse: p1219, filter: f1219, wildcard: c8::events::evt1219::wildcard_filter, event: c8::events::evt1219::event },
    EvCase { contract: 8, name: "Evt1220", camel: "Evt1220", parse: p1220, filter: f1220, wildcard: c8::events::evt1220::wildcard_filter, event: c8::events::evt1220::event },
    EvCase { contract: 8, name: "Evt1221", camel: "Evt1221", parse: p1221, filter: f1221, wildcard: c8::events::evt1221::wildcard_filter, event: c8::events::evt1221::event },
    EvCase { contract: 8, name: "Evt1222", camel: "Evt1222", parse: p1222, filter: f1222, wildcard: c8::events::evt1222::wildcard_filter, event: c8::events::evt1222::event },
    EvCase { contract: 8, name: "Evt1223", camel: "Evt1223", parse: p1223, filter: f1223, wildcard: c8::events::evt1223::wildcard_filter, event: c8::events::evt1223::event },
    EvCase { contract: 8, name: "Evt1224", camel: "Evt1224", parse: p1224, filter: f1224, wildcard: c8::events::evt1224::wildcard_filter, event: c8::events::evt1224::event },
    EvCase { contract: 8, name: "Evt1225", camel: "Evt1225", parse: p1225, filter: f1225, wildcard: c8::events::evt1225::wildcard_filter, event: c8::events::evt1225::event },
    EvCase { contract: 8, name: "Evt1226", camel: "Evt1226", parse: p1226, filter: f1226, wildcard: c8::events::evt1226::wildcard_filter, event: c8::events::evt1226::event },
    EvCase { contract: 8, name: "Evt1227", camel: "Evt1227", parse: p1227, filter: f1227, wildcard: c8::events::evt1227::wildcard_filter, event: c8::events::evt1227::event },
    EvCase { contract: 8, name: "Evt1228", camel: "Evt1228", parse: p1228, filter: f1228, wildcard: c8::events::evt1228::wildcard_filter, event: c8::events::evt1228::event },
    EvCase { contract: 8, name: "Evt1229", camel: "Evt1229", parse: p1229, filter: f1229, wildcard: c8::events::evt1229::wildcard_filter, event: c8::events::evt1229::event },
    EvCase { contract: 8, name: "Evt1230", camel: "Evt1230", parse: p1230, filter: f1230, wildcard: c8::events::evt1230::wildcard_filter, event: c8::events::evt1230::event },
    EvCase { contract: 8, name: "Evt1231", camel: "Evt1231", parse: p1231, filter: f1231, wildcard: c8::events::evt1231::wildcard_filter, event: c8::events::evt1231::event },
    EvCase { contract: 8, name: "Evt1232", camel: "Evt1232", parse: p1232, filter: f1232, wildcard: c8::events::evt1232::wildcard_filter, event: c8::events::evt1232::event },
    EvCase { contract: 8, name: "Evt1233", camel: "Evt1233", parse: p1233, filter: f1233, wildcard: c8::events::evt1233::wildcard_filter, event: c8::events::evt1233::event },
    EvCase { contract: 8, name: "Evt1234", camel: "Evt1234", parse: p1234, filter: f1234, wildcard: c8::events::evt1234::wildcard_filter, event: c8::events::evt1234::event },
    EvCase { contract: 8, name: "Evt1235", camel: "Evt1235", parse: p1235, filter: f1235, wildcard: c8::events::evt1235::wildcard_filter, event: c8::events::evt1235::event },
    EvCase { contract: 8, name: "Evt1236", camel: "Evt1236", parse: p1236, filter: f1236, wildcard: c8::events::evt1236::wildcard_filter, event: c8::events::evt1236::event },
    EvCase { contract: 8, name: "Evt1237", camel: "Evt1237", parse: p1237, filter: f1237, wildcard: c8::events::evt1237::wildcard_filter, event: c8::events::evt1237::event },
    EvCase { contract: 8, name: "Evt1238", camel: "Evt1238", parse: p1238, filter: f1238, wildcard: c8::events::evt1238::wildcard_filter, event: c8::events::evt1238::event },
    EvCase { contract: 8, name: "Evt1239", camel: "Evt1239", parse: p1239, filter: f1239, wildcard: c8::events::evt1239::wildcard_filter, event: c8::events::evt1239::event },
    EvCase { contract: 8, name: "Evt1240", camel: "Evt1240", parse: p1240, filter: f1240, wildcard: c8::events::evt1240::wildcard_filter, event: c8::events::evt1240::event },
    EvCase { contract: 8, name: "Evt1241", camel: "Evt1241", parse: p1241, filter: f1241, wildcard: c8::events::evt1241::wildcard_filter, event: c8::events::evt1241::event },
    EvCase { contract: 8, name: "Evt1242", camel: "Evt1242", parse: p1242, filter: f1242, wildcard: c8::events::evt1242::wildcard_filter, event: c8::events::evt1242::event },
    EvCase { contract: 8, name: "Evt1243", camel: "Evt1243", parse: p1243, filter: f1243, wildcard: c8::events::evt1243::wildcard_filter, event: c8::events::evt1243::event },
    EvCase { contract: 8, name: "Evt1244", camel: "Evt1244", parse: p1244, filter: f1244, wildcard: c8::events::evt1244::wildcard_filter, event: c8::events::evt1244::event },
    EvCase { contract: 8, name: "Evt1245", camel: "Evt1245", parse: p1245, filter: f1245, wildcard: c8::events::evt1245::wildcard_filter, event: c8::events::evt1245::event },
    EvCase { contract: 8, name: "Evt1246", camel: "Evt1246", parse: p1246, filter: f1246, wildcard: c8::events::evt1246::wildcard_filter, event: c8::events::evt1246::event },
    EvCase { contract: 8, name: "Evt1247", camel: "Evt1247", parse: p1247, filter: f1247, wildcard: c8::events::evt1247::wildcard_filter, event: c8::events::evt1247::event },
    EvCase { contract: 8, name: "Evt1248", camel: "Evt1248", parse: p1248, filter: f1248, wildcard: c8::events::evt1248::wildcard_filter, event: c8::events::evt1248::event },
    EvCase { contract: 8, name: "Evt1249", camel: "Evt1249", parse: p1249, filter: f1249, wildcard: c8::events::evt1249::wildcard_filter, event: c8::events::evt1249::event },
    EvCase { contract: 8, name: "Evt1250", camel: "Evt1250", parse: p1250, filter: f1250, wildcard: c8::events::evt1250::wildcard_filter, event: c8::events::evt1250::event },
    EvCase { contract: 8, name: "Evt1251", camel: "Evt1251", parse: p1251, filter: f1251, wildcard: c8::events::evt1251::wildcard_filter, event: c8::events::evt1251::event },
    EvCase { contract: 8, name: "Evt1252", camel: "Evt1252", parse: p1252, filter: f1252, wildcard: c8::events::evt1252::wildcard_filter, event: c8::events::evt1252::event },
    EvCase { contract: 8, name: "Evt1253", camel: "Evt1253", parse: p1253, filter: f1253, wildcard: c8::events::evt1253::wildcard_filter, event: c8::events::evt1253::event },
    EvCase { contract: 8, name: "Evt1254", camel: "Evt1254", parse: p1254, filter: f1254, wildcard: c8::events::evt1254::wildcard_filter, event: c8::events::evt1254::event },
    EvCase { contract: 8, name: "Evt1255", camel: "Evt1255", parse: p1255, filter: f1255, wildcard: c8::events::evt1255::wildcard_filter, event: c8::events::evt1255::event },
    EvCase { contract: 8, name: "Evt1256", camel: "Evt1256", parse: p1256, filter: f1256, wildcard: c8::events::evt1256::wildcard_filter, event: c8::events::evt1256::event },
    EvCase { contract: 8, name: "Evt1257", camel: "Evt1257", parse: p1257, filter: f1257, wildcard: c8::events::evt1257::wildcard_filter, event: c8::events::evt1257::event },
    EvCase { contract: 8, name: "Evt1258", camel: "Evt1258", parse: p1258, filter: f1258, wildcard: c8::events::evt1258::wildcard_filter, event: c8::events::evt1258::event },
    EvCase { contract: 8, name: "Evt1259", camel: "Evt1259", parse: p1259, filter: f1259, wildcard: c8::events::evt1259::wildcard_filter, event: c8::events::evt1259::event },
    EvCase { contract: 8, name: "Evt1260", camel: "Evt1260", parse: p1260, filter: f1260, wildcard: c8::events::evt1260::wildcard_filter, event: c8::events::evt1260::event },
    EvCase { contract: 8, name: "Evt1261", camel: "Evt1261", parse: p1261, filter: f1261, wildcard: c8::events::evt1261::wildcard_filter, event: c8::events::evt1261::event },
    EvCase { contract: 8, name: "Evt1262", camel: "Evt1262", parse: p1262, filter: f1262, wildcard: c8::events::evt1262::wildcard_filter, event: c8::events::evt1262::event },
    EvCase { contract: 8, name: "Evt1263", camel: "Evt1263", parse: p1263, filter: f1263, wildcard: c8::events::evt1263::wildcard_filter, event: c8::events::evt1263::event },
    EvCase { contract: 8, name: "Evt1264", camel: "Evt1264", parse: p1264, filter: f1264, wildcard: c8::events::evt1264::wildcard_filter, event: c8::events::evt1264::event },
    EvCase { contract: 8, name: "Evt1265", camel: "Evt1265", parse: p1265, filter: f1265, wildcard: c8::events::evt1265::wildcard_filter, event: c8::events::evt1265::event },
    EvCase { contract: 8, name: "Evt1266", camel: "Evt1266", parse: p1266, filter: f1266, wildcard: c8::events::evt1266::wildcard_filter, event: c8::events::evt1266::event },
    EvCase { contract: 8, name: "Evt1267", camel: "Evt1267", parse: p1267, filter: f1267, wildcard: c8::events::evt1267::wildcard_filter, event: c8::events::evt1267::event },
    EvCase { contract: 8, name: "Evt1268", camel: "Evt1268", parse: p1268, filter: f1268, wildcard: c8::events::evt1268::wildcard_filter, event: c8::events::evt1268::event },
    EvCase { contract: 8, name: "Evt1269", camel: "Evt1269", parse: p1269, filter: f1269, wildcard: c8::events::evt1269::wildcard_filter, event: c8::events::evt1269::event },
    EvCase { contract: 8, name: "Evt1270", camel: "Evt1270", parse: p1270, filter: f1270, wildcard: c8::events::evt1270::wildcard_filter, event: c8::events::evt1270::event },
    EvCase { contract: 8, name: "Evt1271", camel: "Evt1271", parse: p1271, filter: f1271, wildcard: c8::events::evt1271::wildcard_filter, event: c8::events::evt1271::event },
    EvCase { contract: 8, name: "Evt1272", camel: "Evt1272", parse: p1272, filter: f1272, wildcard: c8::events::evt1272::wildcard_filter, event: c8::events::evt1272::event },
    EvCase { contract: 8, name: "Evt1273", camel: "Evt1273", parse: p1273, filter: f1273, wildcard: c8::events::evt1273::wildcard_filter, event: c8::events::evt1273::event },
    EvCase { contract: 8, name: "Evt1274", camel: "Evt1274", parse: p1274, filter: f1274, wildcard: c8::events::evt1274::wildcard_filter, event: c8::events::evt1274::event },
    EvCase { contract: 8, name: "Evt1275", camel: "Evt1275", parse: p1275, filter: f1275, wildcard: c8::events::evt1275::wildcard_filter, event: c8::events::evt1275::event },
    EvCase { contract: 8, name: "Evt1276", camel: "Evt1276", parse: p1276, filter: f1276, wildcard: c8::events::evt1276::wildcard_filter, event: c8::events::evt1276::event },
    EvCase { contract: 8, name: "Evt1277", camel: "Evt1277", parse: p1277, filter: f1277, wildcard: c8::events::evt1277::wildcard_filter, event: c8::events::evt1277::event },
    EvCase { contract: 8, name: "Evt1278", camel: "Evt1278", parse: p1278, filter: f1278, wildcard: c8::events::evt1278::wildcard_filter, event: c8::events::evt1278::event },
    EvCase { contract: 8, name: "Evt1279", camel: "Evt1279", parse: p1279, filter: f1279, wildcard: c8::events::evt1279::wildcard_filter, event: c8::events::evt1279::event },
    EvCase { contract: 8, name: "Evt1280", camel: "Evt1280", parse: p1280, filter: f1280, wildcard: c8::events::evt1280::wildcard_filter, event: c8::events::evt1280::event },
    EvCase { contract: 8, name: "Evt1281", camel: "Evt1281", parse: p1281, filter: f1281, wildcard: c8::events::evt1281::wildcard_filter, event: c8::events::evt1281::event },
    EvCase { contract: 8, name: "Evt1282", camel: "Evt1282", parse: p1282, filter: f1282, wildcard: c8::events::evt1282::wildcard_filter, event: c8::events::evt1282::event },
    EvCase { contract: 8, name: "Evt1283", camel: "Evt1283", parse: p1283, filter: f1283, wildcard: c8::events::evt1283::wildcard_filter, event: c8::events::evt1283::event },
    EvCase { contract: 8, name: "Evt1284", camel: "Evt1284", parse: p1284, filter: f1284, wildcard: c8::events::evt1284::wildcard_filter, event: c8::events::evt1284::event },
    EvCase { contract: 8, name: "Evt1285", camel: "Evt1285", parse: p1285, filter: f1285, wildcard: c8::events::evt1285::wildcard_filter, event: c8::events::evt1285::event },
    EvCase { contract: 8, name: "Evt1286", camel: "Evt1286", parse: p1286, filter: f1286, wildcard: c8::events::evt1286::wildcard_filter, event: c8::events::evt1286::event },
    EvCase { contract: 8, name: "Evt1287", camel: "Evt1287", parse: p1287, filter: f1287, wildcard: c8::events::evt1287::wildcard_filter, event: c8::events::evt1287::event },
    EvCase { contract: 8, name: "Evt1288", camel: "Evt1288", parse: p1288, filter: f1288, wildcard: c8::events::evt1288::wildcard_filter, event: c8::events::evt1288::event },
    EvCase { contract: 8, name: "Evt1289", camel: "Evt1289", parse: p1289, filter: f1289, wildcard: c8::events::evt1289::wildcard_filter, event: c8::events::evt1289::event },
    EvCase { contract: 8, name: "Evt1290", camel: "Evt1290", parse: p1290, filter: f1290, wildcard: c8::events::evt1290::wildcard_filter, event: c8::events::evt1290::event },
    EvCase { contract: 8, name: "Evt1291", camel: "Evt1291", parse: p1291, filter: f1291, wildcard: c8::events::evt1291::wildcard_filter, event: c8::events::evt1291::event },
    EvCase { contract: 8, name: "Evt1292", camel: "Evt1292", parse: p1292, filter: f1292, wildcard: c8::events::evt1292::wildcard_filter, event: c8::events::evt1292::event },
    EvCase { contract: 8, name: "Evt1293", camel: "Evt1293", parse: p1293, filter: f1293, wildcard: c8::events::evt1293::wildcard_filter, event: c8::events::evt1293::event },
    EvCase { contract: 8, name: "Evt1294", camel: "Evt1294", parse: p1294, filter: f1294, wildcard: c8::events::evt1294::wildcard_filter, event: c8::events::evt1294::event },
    EvCase { contract: 8, name: "Evt1295", camel: "Evt1295", parse: p1295, filter: f1295, wildcard: c8::events::evt1295::wildcard_filter, event: c8::events::evt1295::event },
    EvCase { contract: 8, name: "Evt1296", camel: "Evt1296", parse: p1296, filter: f1296, wildcard: c8::events::evt1296::wildcard_filter, event: c8::events::evt1296::event },
    EvCase { contract: 8, name: "Evt1297", camel: "Evt1297", parse: p1297, filter: f1297, wildcard: c8::events::evt1297::wildcard_filter, event: c8::events::evt1297::event },
    EvCase { contract: 8, name: "Evt1298", camel: "Evt1298", parse: p1298, filter: f1298, wildcard: c8::events::evt1298::wildcard_filter, event: c8::events::evt1298::event },
    EvCase { contract: 8, name: "Evt1299", camel: "Evt1299", parse: p1299, filter: f1299, wildcard: c8::events::evt1299::wildcard_filter, event: c8::events::evt1299::event },
    EvCase { contract: 8, name: "Evt1300", camel: "Evt1300", parse: p1300, filter: f1300, wildcard: c8::events::evt1300::wildcard_filter, event: c8::events::evt1300::event },
    EvCase { contract: 8, name: "Evt1301", camel: "Evt1301", parse: p1301, filter: f1301, wildcard: c8::events::evt1301::wildcard_filter, event: c8::events::evt1301::event },
    EvCase { contract: 8, name: "Evt1302", camel: "Evt1302", parse: p1302, filter: f1302, wildcard: c8::events::evt1302::wildcard_filter, event: c8::events::evt1302::event },
    EvCase { contract: 8, name: "Evt1303", camel: "Evt1303", parse: p1303, filter: f1303, wildcard: c8::events::evt1303::wildcard_filter, event: c8::events::evt1303::event },
    EvCase { contract: 8, name: "Evt1304", camel: "Evt1304", parse: p1304, filter: f1304, wildcard: c8::events::evt1304::wildcard_filter, event: c8::events::evt1304::event },
    EvCase { contract: 8, name: "Evt1305", camel: "Evt1305", parse: p1305, filter: f1305, wildcard: c8::events::evt1305::wildcard_filter, event: c8::events::evt1305::event },
    EvCase { contract: 8, name: "Evt1306", camel: "Evt1306", parse: p1306, filter: f1306, wildcard: c8::events::evt1306::wildcard_filter, event: c8::events::evt1306::event },
    EvCase { contract: 8, name: "Evt1307", camel: "Evt1307", parse: p1307, filter: f1307, wildcard: c8::events::evt1307::wildcard_filter, event: c8::events::evt1307::event },
    EvCase { contract: 8, name: "Evt1308", camel: "Evt1308", parse: p1308, filter: f1308, wildcard: c8::events::evt1308::wildcard_filter, event: c8::events::evt1308::event },
    EvCase { contract: 8, name: "Evt1309", camel: "Evt1309", parse: p1309, filter: f1309, wildcard: c8::events::evt1309::wildcard_filter, event: c8::events::evt1309::event },
    EvCase { contract: 8, name: "Evt1310", camel: "Evt1310", parse: p1310, filter: f1310, wildcard: c8::events::evt1310::wildcard_filter, event: c8::events::evt1310::event },
    EvCase { contract: 8, name: "Evt1311", camel: "Evt1311", parse: p1311, filter: f1311, wildcard: c8::events::evt1311::wildcard_filter, event: c8::events::evt1311::event },
    EvCase { contract: 8, name: "Evt1312", camel: "Evt1312", parse: p1312, filter: f1312, wildcard: c8::events::evt1312::wildcard_filter, event: c8::events::evt1312::event },
    EvCase { contract: 8, name: "Evt1313", camel: "Evt1313", parse: p1313, filter: f1313, wildcard: c8::events::evt1313::wildcard_filter, event: c8::events::evt1313::event },
    EvCase { contract: 8, name: "Evt1314", camel: "Evt1314", parse: p1314, filter: f1314, wildcard: c8::events::evt1314::wildcard_filter, event: c8::events::evt1314::event },
    EvCase { contract: 8, name: "Evt1315", camel: "Evt1315", parse: p1315, filter: f1315, wildcard: c8::events::evt1315::wildcard_filter, event: c8::events::evt1315::event },
    EvCase { contract: 8, name: "Evt1316", camel: "Evt1316", parse: p1316, filter: f1316, wildcard: c8::events::evt1316::wildcard_filter, event: c8::events::evt1316::event },
    EvCase { contract: 8, name: "Evt1317", camel: "Evt1317", parse: p1317, filter: f1317, wildcard: c8::events::evt1317::wildcard_filter, event: c8::events::evt1317::event },
    EvCase { contract: 8, name: "Evt1318", camel: "Evt1318", parse: p1318, filter: f1318, wildcard: c8::events::evt1318::wildcard_filter, event: c8::events::evt1318::event },
    EvCase { contract: 8, name: "Evt1319", camel: "Evt1319", parse: p1319, filter: f1319, wildcard: c8::events::evt1319::wildcard_filter, event: c8::events::evt1319::event },
    EvCase { contract: 8, name: "Evt1320", camel: "Evt1320", parse: p1320, filter: f1320, wildcard: c8::events::evt1320::wildcard_filter, event: c8::events::evt1320::event },
    EvCase { contract: 8, name: "Evt1321", camel: "Evt1321", parse: p1321, filter: f1321, wildcard: c8::events::evt1321::wildcard_filter, event: c8::events::evt1321::event },
    EvCase { contract: 8, name: "Evt1322", camel: "Evt1322", parse: p1322, filter: f1322, wildcard: c8::events::evt1322::wildcard_filter, event: c8::events::evt1322::event },
    EvCase { contract: 8, name: "Evt1323", camel: "Evt1323", parse: p1323, filter: f1323, wildcard: c8::events::evt1323::wildcard_filter, event: c8::events::evt1323::event },
    EvCase { contract: 8, name: "Evt1324", camel: "Evt1324", parse: p1324, filter: f1324, wildcard: c8::events::evt1324::wildcard_filter, event: c8::events::evt1324::event },
    EvCase { contract: 8, name: "Evt1325", camel: "Evt1325", parse: p1325, filter: f1325, wildcard: c8::events::evt1325::wildcard_filter, event: c8::events::evt1325::event },
    EvCase { contract: 8, name: "Evt1326", camel: "Evt1326", parse: p1326, filter: f1326, wildcard: c8::events::evt1326::wildcard_filter, event: c8::events::evt1326::event },
    EvCase { contract: 8, name: "Evt1327", camel: "Evt1327", parse: p1327, filter: f1327, wildcard: c8::events::evt1327::wildcard_filter, event: c8::events::evt1327::event },
    EvCase { contract: 9, name: "Evt1328", camel: "Evt1328", parse: p1328, filter: f1328, wildcard: c9::events::evt1328::wildcard_filter, event: c9::events::evt1328::event },
    EvCase { contract: 9, name: "Evt1329", camel: "Evt1329", parse: p1329, filter: f1329, wildcard: c9::events::evt1329::wildcard_filter, event: c9::events::evt1329::event },
    EvCase { contract: 9, name: "Evt1330", camel: "Evt1330", parse: p1330, filter: f1330, wildcard: c9::events::evt1330::wildcard_filter, event: c9::events::evt1330::event },
    EvCase { contract: 9, name: "Evt1331", camel: "Evt1331", parse: p1331, filter: f1331, wildcard: c9::events::evt1331::wildcard_filter, event: c9::events::evt1331::event },
    EvCase { contract: 9, name: "Evt1332", camel: "Evt1332", parse: p1332, filter: f1332, wildcard: c9::events::evt1332::wildcard_filter, event: c9::events::evt1332::event },
    EvCase { contract: 9, name: "Evt1333", camel: "Evt1333", parse: p1333, filter: f1333, wildcard: c9::events::evt1333::wildcard_filter, event: c9::events::evt1333::event },
    EvCase { contract: 9, name: "Evt1334", camel: "Evt1334", parse: p1334, filter: f1334, wildcard: c9::events::evt1334::wildcard_filter, event: c9::events::evt1334::event },
    EvCase { contract: 9, name: "Evt1335", camel: "Evt1335", parse: p1335, filter: f1335, wildcard: c9::events::evt1335::wildcard_filter, event: c9::events::evt1335::event },
    EvCase { contract: 9, name: "Evt1336", camel: "Evt1336", parse: p1336, filter: f1336, wildcard: c9::events::evt1336::wildcard_filter, event: c9::events::evt1336::event },
    EvCase { contract: 9, name: "Evt1337", camel: "Evt1337", parse: p1337, filter: f1337, wildcard: c9::events::evt1337::wildcard_filter, event: c9::events::evt1337::event },
    EvCase { contract: 9, name: "Evt1338", camel: "Evt1338", parse: p1338, filter: f1338, wildcard: c9::events::evt1338::wildcard_filter, event: c9::events::evt1338::event },
    EvCase { contract: 9, name: "Evt1339", camel: "Evt1339", parse: p1339, filter: f1339, wildcard: c9::events::evt1339::wildcard_filter, event: c9::events::evt1339::event },
    EvCase { contract: 9, name: "Evt1340", camel: "Evt1340", parse: p1340, filter: f1340, wildcard: c9::events::evt1340::wildcard_filter, event: c9::events::evt1340::event },
    EvCase { contract: 9, name: "Evt1341", camel: "Evt1341", parse: p1341, filter: f1341, wildcard: c9::events::evt1341::wildcard_filter, event: c9::events::evt1341::event },
    EvCase { contract: 9, name: "Evt1342", camel: "Evt1342", parse: p1342, filter: f1342, wildcard: c9::events::evt1342::wildcard_filter, event: c9::events::evt1342::event },
    EvCase { contract: 9, name: "Evt1343", camel: "Evt1343", parse: p1343, filter: f1343, wildcard: c9::events::evt1343::wildcard_filter, event: c9::events::evt1343::event },
    EvCase { contract: 9, name: "Evt1344", camel: "Evt1344", parse: p1344, filter: f1344, wildcard: c9::events::evt1344::wildcard_filter, event: c9::events::evt1344::event },
    EvCase { contract: 9, name: "Evt1345", camel: "Evt1345", parse: p1345, filter: f1345, wildcard: c9::events::evt1345::wildcard_filter, event: c9::events::evt1345::event },
    EvCase { contract: 9, name: "Evt1346", camel: "Evt1346", parse: p1346, filter: f1346, wildcard: c9::events::evt1346::wildcard_filter, event: c9::events::evt1346::event },
    EvCase { contract: 9, name: "Evt1347", camel: "Evt1347", parse: p1347, filter: f1347, wildcard: c9::events::evt1347::wildcard_filter, event: c9::events::evt1347::event },
    EvCase { contract: 9, name: "Evt1348", camel: "Evt1348", parse: p1348, filter: f1348, wildcard: c9::events::evt1348::wildcard_filter, event: c9::events::evt1348::event },
    EvCase { contract: 9, name: "Evt1349", camel: "Evt1349", parse: p1349, filter: f1349, wildcard: c9::events::evt1349::wildcard_filter, event: c9::events::evt1349::event },
    EvCase { contract: 9, name: "Evt1350", camel: "Evt1350", parse: p1350, filter: f1350, wildcard: c9::events::evt1350::wildcard_filter, event: c9::events::evt1350::event },
    EvCase { contract: 9, name: "Evt1351", camel: "Evt1351", parse: p1351, filter: f1351, wildcard: c9::events::evt1351::wildcard_filter, event: c9::events::evt1351::event },
    EvCase { contract: 9, name: "Evt1352", camel: "Evt1352", parse: p1352, filter: f1352, wildcard: c9::events::evt1352::wildcard_filter, event: c9::events::evt1352::event },
    EvCase { contract: 9, name: "Evt1353", camel: "Evt1353", parse: p1353, filter: f1353, wildcard: c9::events::evt1353::wildcard_filter, event: c9::events::evt1353::event },
    EvCase { contract: 9, name: "Evt1354", camel: "Evt1354", parse: p1354, filter: f1354, wildcard: c9::events::evt1354::wildcard_filter, event: c9::events::evt1354::event },
    EvCase { contract: 9, name: "Evt1355", camel: "Evt1355", parse: p1355, filter: f1355, wildcard: c9::events::evt1355::wildcard_filter, event: c9::events::evt1355::event },
    EvCase { contract: 9, name: "Evt1356", camel: "Evt1356", parse: p1356, filter: f1356, wildcard: c9::events::evt1356::wildcard_filter, event: c9::events::evt1356::event },
    EvCase { contract: 9, name: "Evt1357", camel: "Evt1357", parse: p1357, filter: f1357, wildcard: c9::events::evt1357::wildcard_filter, event: c9::events::evt1357::event },
    EvCase { contract: 9, name: "Evt1358", camel: "Evt1358", parse: p1358, filter: f1358, wildcard: c9::events::evt1358::wildcard_filter, event: c9::events::evt1358::event },
    EvCase { contract: 9, name: "Evt1359", camel: "Evt1359", parse: p1359, filter: f1359, wildcard: c9::events::evt1359::wildcard_filter, event: c9::events::evt1359::event },
    EvCase { contract: 9, name: "Evt1360", camel: "Evt1360", parse: p1360, filter: f1360, wildcard: c9::events::evt1360::wildcard_filter, event: c9::events::evt1360::event },
    EvCase { contract: 9, name: "Evt1361", camel: "Evt1361", parse: p1361, filter: f1361, wildcard: c9::events::evt1361::wildcard_filter, event: c9::events::evt1361::event },
    EvCase { contract: 9, name: "Evt1362", camel: "Evt1362", parse: p1362, filter: f1362, wildcard: c9::events::evt1362::wildcard_filter, event: c9::events::evt1362::event },
    EvCase { contract: 9, name: "Evt1363", camel: "Evt1363", parse: p1363, filter: f1363, wildcard: c9::events::evt1363::wildcard_filter, event: c9::events::evt1363::event },
    EvCase { contract: 9, name: "Evt1364", camel: "Evt1364", parse: p1364, filter: f1364, wildcard: c9::events::evt1364::wildcard_filter, event: c9::events::evt1364::event },
    EvCase { contract: 9, name: "Evt1365", camel: "Evt1365", parse: p1365, filter: f1365, wildcard: c9::events::evt1365::wildcard_filter, event: c9::events::evt1365::event },
    EvCase { contract: 9, name: "Evt1366", camel: "Evt1366", parse: p1366, filter: f1366, wildcard: c9::events::evt1366::wildcard_filter, event: c9::events::evt1366::event },
    EvCase { contract: 9, name: "Evt1367", camel: "Evt1367", parse: p1367, filter: f1367, wildcard: c9::events::evt1367::wildcard_filter, event: c9::events::evt1367::event },
    EvCase { contract: 9, name: "Evt1368", camel: "Evt1368", parse: p1368, filter: f1368, wildcard: c9::events::evt1368::wildcard_filter, event: c9::events::evt1368::event },
    EvCase { contract: 9, name: "Evt1369", camel: "Evt1369", parse: p1369, filter: f1369, wildcard: c9::events::evt1369::wildcard_filter, event: c9::events::evt1369::event },
    EvCase { contract: 9, name: "Evt1370", camel: "Evt1370", parse: p1370, filter: f1370, wildcard: c9::events::evt1370::wildcard_filter, event: c9::events::evt1370::event },
    EvCase { contract: 9, name: "Evt1371", camel: "Evt1371", parse: p1371, filter: f1371, wildcard: c9::events::evt1371::wildcard_filter, event: c9::events::evt1371::event },
    EvCase { contract: 9, name: "Evt1372", camel: "Evt1372", parse: p1372, filter: f1372, wildcard: c9::events::evt1372::wildcard_filter, event: c9::events::evt1372::event },
    EvCase { contract: 9, name: "Evt1373", camel: "Evt1373", parse: p1373, filter: f1373, wildcard: c9::events::evt1373::wildcard_filter, event: c9::events::evt1373::event },
    EvCase { contract: 9, name: "Evt1374", camel: "Evt1374", parse: p1374, filter: f1374, wildcard: c9::events::evt1374::wildcard_filter, event: c9::events::evt1374::event },
    EvCase { contract: 9, name: "Evt1375", camel: "Evt1375", parse: p1375, filter: f1375, wildcard: c9::events::evt1375::wildcard_filter, event: c9::events::evt1375::event },
    EvCase { contract: 9, name: "Evt1376", camel: "Evt1376", parse: p1376, filter: f1376, wildcard: c9::events::evt1376::wildcard_filter, event: c9::events::evt1376::event },
    EvCase { contract: 9, name: "Evt1377", camel: "Evt1377", parse: p1377, filter: f1377, wildcard: c9::events::evt1377::wildcard_filter, event: c9::events::evt1377::event },
    EvCase { contract: 9, name: "Evt1378", camel: "Evt1378", parse: p1378, filter: f1378, wildcard: c9::events::evt1378::wildcard_filter, event: c9::events::evt1378::event },
    EvCase { contract: 9, name: "Evt1379", camel: "Evt1379", parse: p1379, filter: f1379, wildcard: c9::events::evt1379::wildcard_filter, event: c9::events::evt1379::event },
    EvCase { contract: 9, name: "Evt1380", camel: "Evt1380", parse: p1380, filter: f1380, wildcard: c9::events::evt1380::wildcard_filter, event: c9::events::evt1380::event },
    EvCase { contract: 9, name: "Evt1381", camel: "Evt1381", parse: p1381, filter: f1381, wildcard: c9::events::evt1381::wildcard_filter, event: c9::events::evt1381::event },
    EvCase { contract: 9, name: "Evt1382", camel: "Evt1382", parse: p1382, filter: f1382, wildcard: c9::events::evt1382::wildcard_filter, event: c9::events::evt1382::event },
    EvCase { contract: 9, name: "Evt1383", camel: "Evt1383", parse: p1383, filter: f1383, wildcard: c9::events::evt1383::wildcard_filter, event: c9::events::evt1383::event },
    EvCase { contract: 9, name: "Evt1384", camel: "Evt1384", parse: p1384, filter: f1384, wildcard: c9::events::evt1384::wildcard_filter, event: c9::events::evt1384::event },
    EvCase { contract: 9, name: "Evt1385", camel: "Evt1385", parse: p1385, filter: f1385, wildcard: c9::events::evt1385::wildcard_filter, event: c9::events::evt1385::event },
    EvCase { contract: 9, name: "Evt1386", camel: "Evt1386", parse: p1386, filter: f1386, wildcard: c9::events::evt1386::wildcard_filter, event: c9::events::evt1386::event },
    EvCase { contract: 9, name: "Evt1387", camel: "Evt1387", parse: p1387, filter: f1387, wildcard: c9::events::evt1387::wildcard_filter, event: c9::events::evt1387::event },
    EvCase { contract: 9, name: "Evt1388", camel: "Evt1388", parse: p1388, filter: f1388, wildcard: c9::events::evt1388::wildcard_filter, event: c9::events::evt1388::event },
    EvCase { contract: 9, name: "Evt1389", camel: "Evt1389", parse: p1389, filter: f1389, wildcard: c9::events::evt1389::wildcard_filter, event: c9::events::evt1389::event },
    EvCase { contract: 9, name: "Evt1390", camel: "Evt1390", parse: p1390, filter: f1390, wildcard: c9::events::evt1390::wildcard_filter, event: c9::events::evt1390::event },
    EvCase { contract: 9, name: "Evt1391", camel: "Evt1391", parse: p1391, filter: f1391, wildcard: c9::events::evt1391::wildcard_filter, event: c9::events::evt1391::event },
    EvCase { contract: 9, name: "Evt1392", camel: "Evt1392", parse: p1392, filter: f1392, wildcard: c9::events::evt1392::wildcard_filter, event: c9::events::evt1392::event },
    EvCase { contract: 9, name: "Evt1393", camel: "Evt1393", parse: p1393, filter: f1393, wildcard: c9::events::evt1393::wildcard_filter, event: c9::events::evt1393::event },
    EvCase { contract: 9, name: "Evt1394", camel: "Evt1394", parse: p1394, filter: f1394, wildcard: c9::events::evt1394::wildcard_filter, event: c9::events::evt1394::event },
    EvCase { contract: 9, name: "Evt1395", camel: "Evt1395", parse: p1395, filter: f1395, wildcard: c9::events::evt1395::wildcard_filter, event: c9::events::evt1395::event },
    EvCase { contract: 9, name: "Evt1396", camel: "Evt1396", parse: p1396, filter: f1396, wildcard: c9::events::evt1396::wildcard_filter, event: c9::events::evt1396::event },
    EvCase { contract: 9, name: "Evt1397", camel: "Evt1397", parse: p1397, filter: f1397, wildcard: c9::events::evt1397::wildcard_filter, event: c9::events::evt1397::event },
    EvCase { contract: 9, name: "Evt1398", camel: "Evt1398", parse: p1398, filter: f1398, wildcard: c9::events::evt1398::wildcard_filter, event: c9::events::evt1398::event },
    EvCase { contract: 9, name: "Evt1399", camel: "Evt1399", parse: p1399, filter: f1399, wildcard: c9::events::evt1399::wildcard_filter, event: c9::events::evt1399::event },
    EvCase { contract: 9, name: "Evt1400", camel: "Evt1400", parse: p1400, filter: f1400, wildcard: c9::events::evt1400::wildcard_filter, event: c9::events::evt1400::event },
    EvCase { contract: 9, name: "Evt1401", camel: "Evt1401", parse: p1401, filter: f1401, wildcard: c9::events::evt1401::wildcard_filter, event: c9::events::evt1401::event },
    EvCase { contract: 9, name: "Evt1402", camel: "Evt1402", parse: p1402, filter: f1402, wildcard: c9::events::evt1402::wildcard_filter, event: c9::events::evt1402::event },
    EvCase { contract: 9, name: "Evt1403", camel: "Evt1403", parse: p1403, filter: f1403, wildcard: c9::events::evt1403::wildcard_filter, event: c9::events::evt1403::event },
    EvCase { contract: 9, name: "Evt1404", camel: "Evt1404", parse: p1404, filter: f1404, wildcard: c9::events::evt1404::wildcard_filter, event: c9::events::evt1404::event },
    EvCase { contract: 9, name: "Evt1405", camel: "Evt1405", parse: p1405, filter: f1405, wildcard: c9::events::evt1405::wildcard_filter, event: c9::events::evt1405::event },
    EvCase { contract: 9, name: "Evt1406", camel: "Evt1406", parse: p1406, filter: f1406, wildcard: c9::events::evt1406::wildcard_filter, event: c9::events::evt1406::event },
    EvCase { contract: 9, name: "Evt1407", camel: "Evt1407", parse: p1407, filter: f1407, wildcard: c9::events::evt1407::wildcard_filter, event: c9::events::evt1407::event },
    EvCase { contract: 9, name: "Evt1408", camel: "Evt1408", parse: p1408, filter: f1408, wildcard: c9::events::evt1408::wildcard_filter, event: c9::events::evt1408::event },
    EvCase { contract: 9, name: "Evt1409", camel: "Evt1409", parse: p1409, filter: f1409, wildcard: c9::events::evt1409::wildcard_filter, event: c9::events::evt1409::event },
    EvCase { contract: 9, name: "Evt1410", camel: "Evt1410", parse: p1410, filter: f1410, wildcard: c9::events::evt1410::wildcard_filter, event: c9::events::evt1410::event },
    EvCase { contract: 9, name: "Evt1411", camel: "Evt1411", parse: p1411, filter: f1411, wildcard: c9::events::evt1411::wildcard_filter, event: c9::events::evt1411::event },
    EvCase { contract: 9, name: "Evt1412", camel: "Evt1412", parse: p1412, filter: f1412, wildcard: c9::events::evt1412::wildcard_filter, event: c9::events::evt1412::event },
    EvCase { contract: 9, name: "Evt1413", camel: "Evt1413", parse: p1413, filter: f1413, wildcard: c9::events::evt1413::wildcard_filter, event: c9::events::evt1413::event },
    EvCase { contract: 9, name: "Evt1414", camel: "Evt1414", parse: p1414, filter: f1414, wildcard: c9::events::evt1414::wildcard_filter, event: c9::events::evt1414::event },
    EvCase { contract: 9, name: "Evt1415", camel: "Evt1415", parse: p1415, filter: f1415, wildcard: c9::events::evt1415::wildcard_filter, event: c9::events::evt1415::event },
    EvCase { contract: 9, name: "Evt1416", camel: "Evt1416", parse: p1416, filter: f1416, wildcard: c9::events::evt1416::wildcard_filter, event: c9::events::evt1416::event },
    EvCase { contract: 9, name: "Evt1417", camel: "Evt1417", parse: p1417, filter: f1417, wildcard: c9::events::evt1417::wildcard_filter, event: c9::events::evt1417::event },
    EvCase { contract: 9, name: "Evt1418", camel: "Evt1418", parse: p1418, filter: f1418, wildcard: c9::events::evt1418::wildcard_filter, event: c9::events::evt1418::event },
    EvCase { contract: 9, name: "Evt1419", camel: "Evt1419", parse: p1419, filter: f1419, wildcard: c9::events::evt1419::wildcard_filter, event: c9::events::evt1419::event },
    EvCase { contract: 9, name: "Evt1420", camel: "Evt1420", parse: p1420, filter: f1420, wildcard: c9::events::evt1420::wildcard_filter, event: c9::events::evt1420::event },
    EvCase { contract: 9, name: "Evt1421", camel: "Evt1421", parse: p1421, filter: f1421, wildcard: c9::events::evt1421::wildcard_filter, event: c9::events::evt1421::event },
    EvCase { contract: 9, name: "Evt1422", camel: "Evt1422", parse: p1422, filter: f1422, wildcard: c9::events::evt1422::wildcard_filter, event: c9::events::evt1422::event },
    EvCase { contract: 9, name: "Evt1423", camel: "Evt1423", parse: p1423, filter: f1423, wildcard: c9::events::evt1423::wildcard_filter, event: c9::events::evt1423::event },
    EvCase { contract: 9, name: "Evt1424", camel: "Evt1424", parse: p1424, filter: f1424, wildcard: c9::events::evt1424::wildcard_filter, event: c9::events::evt1424::event },
    EvCase { contract: 9, name: "Evt1425", camel: "Evt1425", parse: p1425, filter: f1425, wildcard: c9::events::evt1425::wildcard_filter, event: c9::events::evt1425::event },
    EvCase { contract: 9, name: "Evt1426", camel: "Evt1426", parse: p1426, filter: f1426, wildcard: c9::events::evt1426::wildcard_filter, event: c9::events::evt1426::event },
    EvCase { contract: 9, name: "Evt1427", camel: "Evt1427", parse: p1427, filter: f1427, wildcard: c9::events::evt1427::wildcard_filter, event: c9::events::evt1427::event },
    EvCase { contract: 9, name: "Evt1428", camel: "Evt1428", parse: p1428, filter: f1428, wildcard: c9::events::evt1428::wildcard_filter, event: c9::events::evt1428::event },
    EvCase { contract: 9, name: "Evt1429", camel: "Evt1429", parse: p1429, filter: f1429, wildcard: c9::events::evt1429::wildcard_filter, event: c9::events::evt1429::event },
    EvCase { contract: 9, name: "Evt1430", camel: "Evt1430", parse: p1430, filter: f1430, wildcard: c9::events::evt1430::wildcard_filter, event: c9::events::evt1430::event },
    EvCase { contract: 9, name: "Evt1431", camel: "Evt1431", parse: p1431, filter: f1431, wildcard: c9::events::evt1431::wildcard_filter, event: c9::events::evt1431::event },
    EvCase { contract: 9, name: "Evt1432", camel: "Evt1432", parse: p1432, filter: f1432, wildcard: c9::events::evt1432::wildcard_filter, event: c9::events::evt1432::event },
    EvCase { contract: 9, name: "Evt1433", camel: "Evt1433", parse: p1433, filter: f1433, wildcard: c9::events::evt1433::wildcard_filter, event: c9::events::evt1433::event },
    EvCase { contract: 9, name: "Evt1434", camel: "Evt1434", parse: p1434, filter: f1434, wildcard: c9::events::evt1434::wildcard_filter, event: c9::events::evt1434::event },
    EvCase { contract: 9, name: "Evt1435", camel: "Evt1435", parse: p1435, filter: f1435, wildcard: c9::events::evt1435::wildcard_filter, event: c9::events::evt1435::event },
    EvCase { contract: 9, name: "Evt1436", camel: "Evt1436", parse: p1436, filter: f1436, wildcard: c9::events::evt1436::wildcard_filter, event: c9::events::evt1436::event },
    EvCase { contract: 9, name: "Evt1437", camel: "Evt1437", parse: p1437, filter: f1437, wildcard: c9::events::evt1437::wildcard_filter, event: c9::events::evt1437::event },
    EvCase { contract: 9, name: "Evt1438", camel: "Evt1438", parse: p1438, filter: f1438, wildcard: c9::events::evt1438::wildcard_filter, event: c9::events::evt1438::event },
    EvCase { contract: 9, name: "Evt1439", camel: "Evt1439", parse: p1439, filter: f1439, wildcard: c9::events::evt1439::wildcard_filter, event: c9::events::evt1439::event },
    EvCase { contract: 9, name: "Evt1440", camel: "Evt1440", parse: p1440, filter: f1440, wildcard: c9::events::evt1440::wildcard_filter, event: c9::events::evt1440::event },
    EvCase { contract: 9, name: "Evt1441", camel: "Evt1441", parse: p1441, filter: f1441, wildcard: c9::events::evt1441::wildcard_filter, event: c9::events::evt1441::event },
    EvCase { contract: 9, name: "Evt1442", camel: "Evt1442", parse: p1442, filter: f1442, wildcard: c9::events::evt1442::wildcard_filter, event: c9::events::evt1442::event },
    EvCase { contract: 9, name: "Evt1443", camel: "Evt1443", parse: p1443, filter: f1443, wildcard: c9::events::evt1443::wildcard_filter, event: c9::events::evt1443::event },
    EvCase { contract: 9, name: "Evt1444", camel: "Evt1444", parse: p1444, filter: f1444, wildcard: c9::events::evt1444::wildcard_filter, event: c9::events::evt1444::event },
    EvCase { contract: 9, name: "Evt1445", camel: "Evt1445", parse: p1445, filter: f1445, wildcard: c9::events::evt1445::wildcard_filter, event: c9::events::evt1445::event },
    EvCase { contract: 9, name: "Evt1446", camel: "Evt1446", parse: p1446, filter: f1446, wildcard: c9::events::evt1446::wildcard_filter, event: c9::events::evt1446::event },
    EvCase { contract: 9, name: "Evt1447", camel: "Evt1447", parse: p1447, filter: f1447, wildcard: c9::events::evt1447::wildcard_filter, event: c9::events::evt1447::event },
    EvCase { contract: 9, name: "Evt1448", camel: "Evt1448", parse: p1448, filter: f1448, wildcard: c9::events::evt1448::wildcard_filter, event: c9::events::evt1448::event },
    EvCase { contract: 9, name: "Evt1449", camel: "Evt1449", parse: p1449, filter: f1449, wildcard: c9::events::evt1449::wildcard_filter, event: c9::events::evt1449::event },
    EvCase { contract: 9, name: "Evt1450", camel: "Evt1450", parse: p1450, filter: f1450, wildcard: c9::events::evt1450::wildcard_filter, event: c9::events::evt1450::event },
    EvCase { contract: 9, name: "Evt1451", camel: "Evt1451", parse: p1451, filter: f1451, wildcard: c9::events::evt1451::wildcard_filter, event: c9::events::evt1451::event },
    EvCase { contract: 9, name: "Evt1452", camel: "Evt1452", parse: p1452, filter: f1452, wildcard: c9::events::evt1452::wildcard_filter, event: c9::events::evt1452::event },
    EvCase { contract: 9, name: "Evt1453", camel: "Evt1453", parse: p1453, filter: f1453, wildcard: c9::events::evt1453::wildcard_filter, event: c9::events::evt1453::event },
    EvCase { contract: 9, name: "Evt1454", camel: "Evt1454", parse: p1454, filter: f1454, wildcard: c9::events::evt1454::wildcard_filter, event: c9::events::evt1454::event },
    EvCase { contract: 9, name: "Evt1455", camel: "Evt1455", parse: p1455, filter: f1455, wildcard: c9::events::evt1455::wildcard_filter, event: c9::events::evt1455::event },
    EvCase { contract: 9, name: "Evt1456", camel: "Evt1456", parse: p1456, filter: f1456, wildcard: c9::events::evt1456::wildcard_filter, event: c9::events::evt1456::event },
    EvCase { contract: 9, name: "Evt1457", camel: "Evt1457", parse: p1457, filter: f1457, wildcard: c9::events::evt1457::wildcard_filter, event: c9::events::evt1457::event },
    EvCase { contract: 9, name: "Evt1458", camel: "Evt1458", parse: p1458, filter: f1458, wildcard: c9::events::evt1458::wildcard_filter, event: c9::events::evt1458::event },
    EvCase { contract: 9, name: "Evt1459", camel: "Evt1459", parse: p1459, filter: f1459, wildcard: c9::events::evt1459::wildcard_filter, event: c9::events::evt1459::event },
    EvCase { contract: 9, name: "Evt1460", camel: "Evt1460", parse: p1460, filter: f1460, wildcard: c9::events::evt1460::wildcard_filter, event: c9::events::evt1460::event },
    EvCase { contract: 9, name: "Evt1461", camel: "Evt1461", parse: p1461, filter: f1461, wildcard: c9::events::evt1461::wildcard_filter, event: c9::events::evt1461::event },
    EvCase { contract: 9, name: "Evt1462", camel: "Evt1462", parse: p1462, filter: f1462, wildcard: c9::events::evt1462::wildcard_filter, event: c9::events::evt1462::event },
    EvCase { contract: 9, name: "Evt1463", camel: "Evt1463", parse: p1463, filter: f1463, wildcard: c9::events::evt1463::wildcard_filter, event: c9::events::evt1463::event },
    EvCase { contract: 9, name: "Evt1464", camel: "Evt1464", parse: p1464, filter: f1464, wildcard: c9::events::evt1464::wildcard_filter, event: c9::events::evt1464::event },
    EvCase { contract: 9, name: "Evt1465", camel: "Evt1465", parse: p1465, filter: f1465, wildcard: c9::events::evt1465::wildcard_filter, event: c9::events::evt1465::event },
    EvCase { contract: 9, name: "Evt1466", camel: "Evt1466", parse: p1466, filter: f1466, wildcard: c9::events::evt1466::wildcard_filter, event: c9::events::evt1466::event },
    EvCase { contract: 9, name: "Evt1467", camel: "Evt1467", parse: p1467, filter: f1467, wildcard: c9::events::evt1467::wildcard_filter, event: c9::events::evt1467::event },
    EvCase { contract: 9, name: "Evt1468", camel: "Evt1468", parse: p1468, filter: f1468, wildcard: c9::events::evt1468::wildcard_filter, event: c9::events::evt1468::event },
    EvCase { contract: 9, name: "Evt1469", camel: "Evt1469", parse: p1469, filter: f1469, wildcard: c9::events::evt1469::wildcard_filter, event: c9::events::evt1469::event },
    EvCase { contract: 9, name: "Evt1470", camel: "Evt1470", parse: p1470, filter: f1470, wildcard: c9::events::evt1470::wildcard_filter, event: c9::events::evt1470::event },
    EvCase { contract: 9, name: "Evt1471", camel: "Evt1471", parse: p1471, filter: f1471, wildcard: c9::events::evt1471::wildcard_filter, event: c9::events::evt1471::event },
    EvCase { contract: 9, name: "Evt1472", camel: "Evt1472", parse: p1472, filter: f1472, wildcard: c9::events::evt1472::wildcard_filter, event: c9::events::evt1472::event },
    EvCase { contract: 9, name: "Evt1473", camel: "Evt1473", parse: p1473, filter: f1473, wildcard: c9::events::evt1473::wildcard_filter, event: c9::events::evt1473::event },
    EvCase { contract: 9, name: "Evt1474", camel: "Evt1474", parse: p1474, filter: f1474, wildcard: c9::events::evt1474::wildcard_filter, event: c9::events::evt1474::event },
    EvCase { contract: 9, name: "Evt1475", camel: "Evt1475", parse: p1475, filter: f1475, wildcard: c9::events::evt1475::wildcard_filter, event: c9::events::evt1475::event },
    EvCase { contract: 9, name: "Evt1476", camel: "Evt1476", parse: p1476, filter: f1476, wildcard: c9::events::evt1476::wildcard_filter, event: c9::events::evt1476::event },
    EvCase { contract: 9, name: "Evt1477", camel: "Evt1477", parse: p1477, filter: f1477, wildcard: c9::events::evt1477::wildcard_filter, event: c9::events::evt1477::event },
    EvCase { contract: 9, name: "Evt1478", camel: "Evt1478", parse: p1478, filter: f1478, wildcard: c9::events::evt1478::wildcard_filter, event: c9::events::evt1478::event },
    EvCase { contract: 9, name: "Evt1479", camel: "Evt1479", parse: p1479, filter: f1479, wildcard: c9::events::evt1479::wildcard_filter, event: c9::events::evt1479::event },
    EvCase { contract: 9, name: "Evt1480", camel: "Evt1480", parse: p1480, filter: f1480, wildcard: c9::events::evt1480::wildcard_filter, event: c9::events::evt1480::event },
    EvCase { contract: 9, name: "Evt1481", camel: "Evt1481", parse: p1481, filter: f1481, wildcard: c9::events::evt1481::wildcard_filter, event: c9::events::evt1481::event },
    EvCase { contract: 9, name: "Evt1482", camel: "Evt1482", parse: p1482, filter: f1482, wildcard: c9::events::evt1482::wildcard_filter, event: c9::events::evt1482::event },
    EvCase { contract: 9, name: "Evt1483", camel: "Evt1483", parse: p1483, filter: f1483, wildcard: c9::events::evt1483::wildcard_filter, event: c9::events::evt1483::event },
    EvCase { contract: 10, name: "A", camel: "A", parse: p1484, filter: f1484, wildcard: c10::events::a::wildcard_filter, event: c10::events::a::event },
    EvCase { contract: 10, name: "X1", camel: "X1", parse: p1485, filter: f1485, wildcard: c10::events::x1::wildcard_filter, event: c10::events::x1::event },
    EvCase { contract: 10, name: "Transfer", camel: "Transfer", parse: p1486, filter: f1486, wildcard: c10::events::transfer::wildcard_filter, event: c10::events::transfer::event },
    EvCase { contract: 10, name: "OwnershipTransferred", camel: "OwnershipTransferred", parse: p1487, filter: f1487, wildcard: c10::events::ownership_transferred::wildcard_filter, event: c10::events::ownership_transferred::event },
    EvCase { contract: 10, name: "Erc20", camel: "Erc20", parse: p1488, filter: f1488, wildcard: c10::events::erc20::wildcard_filter, event: c10::events::erc20::event },
    EvCase { contract: 10, name: "Vec", camel: "Vec", parse: p1489, filter: f1489, wildcard: c10::events::vec::wildcard_filter, event: c10::events::vec::event },
    EvCase { contract: 10, name: "Option", camel: "Option", parse: p1490, filter: f1490, wildcard: c10::events::option::wildcard_filter, event: c10::events::option::event },
    EvCase { contract: 10, name: "Result", camel: "Result", parse: p1491, filter: f1491, wildcard: c10::events::result::wildcard_filter, event: c10::events::result::event },
    EvCase { contract: 10, name: "Filter", camel: "Filter", parse: p1492, filter: f1492, wildcard: c10::events::filter::wildcard_filter, event: c10::events::filter::event },
    EvCase { contract: 10, name: "EventX", camel: "EventX", parse: p1493, filter: f1493, wildcard: c10::events::event_x::wildcard_filter, event: c10::events::event_x::event },
    EvCase { contract: 10, name: "Raw", camel: "Raw", parse: p1494, filter: f1494, wildcard: c10::events::raw::wildcard_filter, event: c10::events::raw::event },
    EvCase { contract: 10, name: "Topic", camel: "Topic", parse: p1495, filter: f1495, wildcard: c10::events::topic::wildcard_filter, event: c10::events::topic::event },
    EvCase { contract: 10, name: "Evt1496", camel: "Evt1496", parse: p1496, filter: f1496, wildcard: c10::events::evt1496::wildcard_filter, event: c10::events::evt1496::event },
    EvCase { contract: 10, name: "Evt1497", camel: "Evt1497", parse: p1497, filter: f1497, wildcard: c10::events::evt1497::wildcard_filter, event: c10::events::evt1497::event },
    EvCase { contract: 10, name: "Evt1498", camel: "Evt1498", parse: p1498, filter: f1498, wildcard: c10::events::evt1498::wildcard_filter, event: c10::events::evt1498::event },
    EvCase { contract: 10, name: "Evt1499", camel: "Evt1499", parse: p1499, filter: f1499, wildcard: c10::events::evt1499::wildcard_filter, event: c10::events::evt1499::event },
    EvCase { contract: 10, name: "Evt1500", camel: "Evt1500", parse: p1500, filter: f1500, wildcard: c10::events::evt1500::wildcard_filter, event: c10::events::evt1500::event },
    EvCase { contract: 10, name: "Evt1501", camel: "Evt1501", parse: p1501, filter: f1501, wildcard: c10::events::evt1501::wildcard_filter, event: c10::events::evt1501::event },
    EvCase { contract: 10, name: "Evt1502", camel: "Evt1502", parse: p1502, filter: f1502, wildcard: c10::events::evt1502::wildcard_filter, event: c10::events::evt1502::event },
    EvCase { contract: 10, name: "Evt1503", camel: "Evt1503", parse: p1503, filter: f1503, wildcard: c10::events::evt1503::wildcard_filter, event: c10::events::evt1503::event },
    EvCase { contract: 10, name: "Evt1504", camel: "Evt1504", parse: p1504, filter: f1504, wildcard: c10::events::evt1504::wildcard_filter, event: c10::events::evt1504::event },
    EvCase { contract: 10, name: "Evt1505", camel: "Evt1505", parse: p1505, filter: f1505, wildcard: c10::events::evt1505::wildcard_filter, event: c10::events::evt1505::event },
    EvCase { contract: 10, name: "Evt1506", camel: "Evt1506", parse: p1506, filter: f1506, wildcard: c10::events::evt1506::wildcard_filter, event: c10::events::evt1506::event },
    EvCase { contract: 10, name: "Evt1507", camel: "Evt1507", parse: p1507, filter: f1507, wildcard: c10::events::evt1507::wildcard_filter, event: c10::events::evt1507::event },
    EvCase { contract: 10, name: "Evt1508", camel: "Evt1508", parse: p1508, filter: f1508, wildcard: c10::events::evt1508::wildcard_filter, event: c10::events::evt1508::event },
    EvCase { contract: 10, name: "Evt1509", camel: "Evt1509", parse: p1509, filter: f1509, wildcard: c10::events::evt1509::wildcard_filter, event: c10::events::evt1509::event },
    EvCase { contract: 10, name: "Evt1510", camel: "Evt1510", parse: p1510, filter: f1510, wildcard: c10::events::evt1510::wildcard_filter, event: c10::events::evt1510::event },
    EvCase { contract: 10, name: "Evt1511", camel: "Evt1511", parse: p1511, filter: f1511, wildcard: c10::events::evt1511::wildcard_filter, event: c10::events::evt1511::event },
    EvCase { contract: 10, name: "Evt1512", camel: "Evt1512", parse: p1512, filter: f1512, wildcard: c10::events::evt1512::wildcard_filter, event: c10::events::evt1512::event },
    EvCase { contract: 10, name: "Evt1513", camel: "Evt1513", parse: p1513, filter: f1513, wildcard: c10::events::evt1513::wildcard_filter, event: c10::events::evt1513::event },
    EvCase { contract: 10, name: "Evt1514", camel: "Evt1514", parse: p1514, filter: f1514, wildcard: c10::events::evt1514::wildcard_filter, event: c10::events::evt1514::event },
    EvCase { contract: 10, name: "Evt1515", camel: "Evt1515", parse: p1515, filter: f1515, wildcard: c10::events::evt1515::wildcard_filter, event: c10::events::evt1515::event },
    EvCase { contract: 10, name: "Evt1516", camel: "Evt1516", parse: p1516, filter: f1516, wildcard: c10::events::evt1516::wildcard_filter, event: c10::events::evt1516::event },
    EvCase { contract: 10, name: "Evt1517", camel: "Evt1517", parse: p1517, filter: f1517, wildcard: c10::events::evt1517::wildcard_filter, event: c10::events::evt1517::event },
    EvCase { contract: 10, name: "Evt1518", camel: "Evt1518", parse: p1518, filter: f1518, wildcard: c10::events::evt1518::wildcard_filter, event: c10::events::evt1518::event },
    EvCase { contract: 10, name: "Evt1519", camel: "Evt1519", parse: p1519, filter: f1519, wildcard: c10::events::evt1519::wildcard_filter, event: c10::events::evt1519::event },
    EvCase { contract: 10, name: "Evt1520", camel: "Evt1520", parse: p1520, filter: f1520, wildcard: c10::events::evt1520::wildcard_filter, event: c10::events::evt1520::event },
    EvCase { contract: 10, name: "Evt1521", camel: "Evt1521", parse: p1521, filter: f1521, wildcard: c10::events::evt1521::wildcard_filter, event: c10::events::evt1521::event },
    EvCase { contract: 10, name: "Evt1522", camel: "Evt1522", parse: p1522, filter: f1522, wildcard: c10::events::evt1522::wildcard_filter, event: c10::events::evt1522::event },
    EvCase { contract: 10, name: "Evt1523", camel: "Evt1523", parse: p1523, filter: f1523, wildcard: c10::events::evt1523::wildcard_filter, event: c10::events::evt1523::event },
    EvCase { contract: 10, name: "Evt1524", camel: "Evt1524", parse: p1524, filter: f1524, wildcard: c10::events::evt1524::wildcard_filter, event: c10::events::evt1524::event },
    EvCase { contract: 10, name: "Evt1525", camel: "Evt1525", parse: p1525, filter: f1525, wildcard: c10::events::evt1525::wildcard_filter, event: c10::events::evt1525::event },
    EvCase { contract: 10, name: "Evt1526", camel: "Evt1526", parse: p1526, filter: f1526, wildcard: c10::events::evt1526::wildcard_filter, event: c10::events::evt1526::event },
    EvCase { contract: 10, name: "Evt1527", camel: "Evt1527", parse: p1527, filter: f1527, wildcard: c10::events::evt1527::wildcard_filter, event: c10::events::evt1527::event },
    EvCase { contract: 10, name: "Evt1528", camel: "Evt1528", parse: p1528, filter: f1528, wildcard: c10::events::evt1528::wildcard_filter, event: c10::events::evt1528::event },
    EvCase { contract: 11, name: "Evt1529", camel: "Evt1529", parse: p1529, filter: f1529, wildcard: c11::events::evt1529::wildcard_filter, event: c11::events::evt1529::event },
    EvCase { contract: 11, name: "Evt1530", camel: "Evt1530", parse: p1530, filter: f1530, wildcard: c11::events::evt1530::wildcard_filter, event: c11::events::evt1530::event },
    EvCase { contract: 11, name: "Evt1531", camel: "Evt1531", parse: p1531, filter: f1531, wildcard: c11::events::evt1531::wildcard_filter, event: c11::events::evt1531::event },
    EvCase { contract: 11, name: "Evt1532", camel: "Evt1532", parse: p1532, filter: f1532, wildcard: c11::events::evt1532::wildcard_filter, event: c11::events::evt1532::event },
    EvCase { contract: 11, name: "Transfer", camel: "Transfer", parse: p1533, filter: f1533, wildcard: c11::events::transfer::wildcard_filter, event: c11::events::transfer::event },
    EvCase { contract: 11, name: "NameChanged", camel: "NameChanged", parse: p1534, filter: f1534, wildcard: c11::events::name_changed::wildcard_filter, event: c11::events::name_changed::event },
    EvCase { contract: 11, name: "HashSet", camel: "HashSet", parse: p1535, filter: f1535, wildcard: c11::events::hash_set::wildcard_filter, event: c11::events::hash_set::event },
    EvCase { contract: 11, name: "lower_anonymous", camel: "LowerAnonymous", parse: p1536, filter: f1536, wildcard: c11::events::lower_anonymous::wildcard_filter, event: c11::events::lower_anonymous::event },
    EvCase { contract: 12, name: "transfer", camel: "Transfer", parse: p1537, filter: f1537, wildcard: c12::events::transfer::wildcard_filter, event: c12::events::transfer::event },
    EvCase { contract: 12, name: "snake_case", camel: "SnakeCase", parse: p1538, filter: f1538, wildcard: c12::events::snake_case::wildcard_filter, event: c12::events::snake_case::event },
    EvCase { contract: 12, name: "NFTMinted", camel: "NftMinted", parse: p1539, filter: f1539, wildcard: c12::events::nft_minted::wildcard_filter, event: c12::events::nft_minted::event },
    EvCase { contract: 12, name: "Log_Note", camel: "LogNote", parse: p1540, filter: f1540, wildcard: c12::events::log_note::wildcard_filter, event: c12::events::log_note::event },
];
