// Written by gen.py; do not edit.
#![allow(unused_variables)]
use super::*;

ethabi_contract::use_contract!(c0, "abi/c0.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c1 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c1.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c2 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c2.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c3 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c3.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c4, "abi/c4.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c5 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c5.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c6 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c6.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c7 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c7.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c8, "abi/c8.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c9 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c9.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c10 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c10.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c11 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c11.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c12, "abi/c12.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c13 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c13.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c14 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c14.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c15 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c15.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c16, "abi/c16.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c17 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c17.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c18 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c18.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c19 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c19.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c20, "abi/c20.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c21 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c21.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c22 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c22.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c23 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c23.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c24, "abi/c24.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c25 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c25.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c26 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c26.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c27 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c27.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c28, "abi/c28.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c29 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c29.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c30 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c30.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c31 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c31.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c32, "abi/c32.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c33 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c33.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c34 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c34.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c35 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c35.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c36, "abi/c36.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c37 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c37.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c38 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c38.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c39 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c39.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c40, "abi/c40.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c41 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c41.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c42 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c42.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c43 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c43.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c44, "abi/c44.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c45 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c45.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c46 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c46.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c47 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c47.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c48, "abi/c48.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c49 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c49.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c50 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c50.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c51 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c51.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c52, "abi/c52.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c53 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c53.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c54 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c54.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c55 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c55.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c56, "abi/c56.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c57 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c57.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c58 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c58.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c59 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c59.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c60, "abi/c60.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c61 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c61.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c62 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c62.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c63 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c63.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c64, "abi/c64.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c65 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c65.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c66 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c66.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c67 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c67.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c68, "abi/c68.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c69 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c69.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c70 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c70.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c71 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c71.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c72, "abi/c72.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c73 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c73.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c74 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c74.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c75 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c75.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c76, "abi/c76.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c77 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c77.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c78 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c78.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c79 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c79.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c80, "abi/c80.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c81 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c81.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c82 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c82.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c83 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c83.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c84, "abi/c84.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c85 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c85.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c86 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c86.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c87 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c87.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c88, "abi/c88.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c89 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c89.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c90 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c90.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c91 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c91.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c92, "abi/c92.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c93 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c93.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c94 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c94.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c95 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c95.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c96, "abi/c96.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c97 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c97.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c98 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c98.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c99 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c99.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c100, "abi/c100.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c101 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c101.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c102 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c102.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c103 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c103.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c104, "abi/c104.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c105 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c105.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c106 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c106.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c107 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c107.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c108, "abi/c108.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c109 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c109.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c110 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c110.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c111 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c111.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c112, "abi/c112.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c113 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c113.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c114 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c114.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c115 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c115.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c116, "abi/c116.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c117 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c117.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c118 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c118.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c119 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c119.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c120, "abi/c120.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c121 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c121.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c122 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c122.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c123 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c123.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c124, "abi/c124.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c125 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c125.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c126 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c126.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c127 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c127.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c128, "abi/c128.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c129 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c129.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c130 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c130.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c131 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c131.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c132, "abi/c132.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c133 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c133.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c134 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c134.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c135 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c135.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c136, "abi/c136.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c137 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c137.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c138 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c138.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c139 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c139.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c140, "abi/c140.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c141 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c141.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c142 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c142.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c143 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c143.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c144, "abi/c144.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c145 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c145.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c146 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c146.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c147 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c147.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c148, "abi/c148.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c149 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c149.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c150 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c150.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c151 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c151.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c152, "abi/c152.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c153 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c153.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c154 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c154.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c155 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c155.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c156, "abi/c156.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c157 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c157.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c158 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c158.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c159 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c159.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c160, "abi/c160.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c161 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c161.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c162 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c162.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c163 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c163.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c164, "abi/c164.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c165 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c165.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c166 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c166.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c167 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c167.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c168, "abi/c168.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c169 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c169.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c170 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c170.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c171 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c171.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c172, "abi/c172.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c173 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c173.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c174 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c174.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c175 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c175.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c176, "abi/c176.json");
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c177 {
    /// Documented.
    #[allow(dead_code)]
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(path = "abi/c177.json")]
    struct Named;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c178 {
    #[derive(ethabi_derive::EthabiContract)]
    #[doc(hidden)]
    #[ethabi_contract_options(path = "abi/c178.json", name = "other")]
    /// After.
    pub struct Other;
}
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
pub mod c179 {
    #[derive(ethabi_derive::EthabiContract)]
    #[ethabi_contract_options(flag, name = "other", path = "abi/c179.json")]
    enum Empty {}
}
ethabi_contract::use_contract!(c180, "abi/c180.json");

pub const ABIS: &[&[u8]] = &[
    include_bytes!("../abi/c0.json"),
    include_bytes!("../abi/c1.json"),
    include_bytes!("../abi/c2.json"),
    include_bytes!("../abi/c3.json"),
    include_bytes!("../abi/c4.json"),
    include_bytes!("../abi/c5.json"),
    include_bytes!("../abi/c6.json"),
    include_bytes!("../abi/c7.json"),
    include_bytes!("../abi/c8.json"),
    include_bytes!("../abi/c9.json"),
    include_bytes!("../abi/c10.json"),
    include_bytes!("../abi/c11.json"),
    include_bytes!("../abi/c12.json"),
    include_bytes!("../abi/c13.json"),
    include_bytes!("../abi/c14.json"),
    include_bytes!("../abi/c15.json"),
    include_bytes!("../abi/c16.json"),
    include_bytes!("../abi/c17.json"),
    include_bytes!("../abi/c18.json"),
    include_bytes!("../abi/c19.json"),
    include_bytes!("../abi/c20.json"),
    include_bytes!("../abi/c21.json"),
    include_bytes!("../abi/c22.json"),
    include_bytes!("../abi/c23.json"),
    include_bytes!("../abi/c24.json"),
    include_bytes!("../abi/c25.json"),
    include_bytes!("../abi/c26.json"),
    include_bytes!("../abi/c27.json"),
    include_bytes!("../abi/c28.json"),
    include_bytes!("../abi/c29.json"),
    include_bytes!("../abi/c30.json"),
    include_bytes!("../abi/c31.json"),
    include_bytes!("../abi/c32.json"),
    include_bytes!("../abi/c33.json"),
    include_bytes!("../abi/c34.json"),
    include_bytes!("../abi/c35.json"),
    include_bytes!("../abi/c36.json"),
    include_bytes!("../abi/c37.json"),
    include_bytes!("../abi/c38.json"),
    include_bytes!("../abi/c39.json"),
    include_bytes!("../abi/c40.json"),
    include_bytes!("../abi/c41.json"),
    include_bytes!("../abi/c42.json"),
    include_bytes!("../abi/c43.json"),
    include_bytes!("../abi/c44.json"),
    include_bytes!("../abi/c45.json"),
    include_bytes!("../abi/c46.json"),
    include_bytes!("../abi/c47.json"),
    include_bytes!("../abi/c48.json"),
    include_bytes!("../abi/c49.json"),
    include_bytes!("../abi/c50.json"),
    include_bytes!("../abi/c51.json"),
    include_bytes!("../abi/c52.json"),
    include_bytes!("../abi/c53.json"),
    include_bytes!("../abi/c54.json"),
    include_bytes!("../abi/c55.json"),
    include_bytes!("../abi/c56.json"),
    include_bytes!("../abi/c57.json"),
    include_bytes!("../abi/c58.json"),
    include_bytes!("../abi/c59.json"),
    include_bytes!("../abi/c60.json"),
    include_bytes!("../abi/c61.json"),
    include_bytes!("../abi/c62.json"),
    include_bytes!("../abi/c63.json"),
    include_bytes!("../abi/c64.json"),
    include_bytes!("../abi/c65.json"),
    include_bytes!("../abi/c66.json"),
    include_bytes!("../abi/c67.json"),
    include_bytes!("../abi/c68.json"),
    include_bytes!("../abi/c69.json"),
    include_bytes!("../abi/c70.json"),
    include_bytes!("../abi/c71.json"),
    include_bytes!("../abi/c72.json"),
    include_bytes!("../abi/c73.json"),
    include_bytes!("../abi/c74.json"),
    include_bytes!("../abi/c75.json"),
    include_bytes!("../abi/c76.json"),
    include_bytes!("../abi/c77.json"),
    include_bytes!("../abi/c78.json"),
    include_bytes!("../abi/c79.json"),
    include_bytes!("../abi/c80.json"),
    include_bytes!("../abi/c81.json"),
    include_bytes!("../abi/c82.json"),
    include_bytes!("../abi/c83.json"),
    include_bytes!("../abi/c84.json"),
    include_bytes!("../abi/c85.json"),
    include_bytes!("../abi/c86.json"),
    include_bytes!("../abi/c87.json"),
    include_bytes!("../abi/c88.json"),
    include_bytes!("../abi/c89.json"),
    include_bytes!("../abi/c90.json"),
    include_bytes!("../abi/c91.json"),
    include_bytes!("../abi/c92.json"),
    include_bytes!("../abi/c93.json"),
    include_bytes!("../abi/c94.json"),
    include_bytes!("../abi/c95.json"),
    include_bytes!("../abi/c96.json"),
    include_bytes!("../abi/c97.json"),
    include_bytes!("../abi/c98.json"),
    include_bytes!("../abi/c99.json"),
    include_bytes!("../abi/c100.json"),
    include_bytes!("../abi/c101.json"),
    include_bytes!("../abi/c102.json"),
    include_bytes!("../abi/c103.json"),
    include_bytes!("../abi/c104.json"),
    include_bytes!("../abi/c105.json"),
    include_bytes!("../abi/c106.json"),
    include_bytes!("../abi/c107.json"),
    include_bytes!("../abi/c108.json"),
    include_bytes!("../abi/c109.json"),
    include_bytes!("../abi/c110.json"),
    include_bytes!("../abi/c111.json"),
    include_bytes!("../abi/c112.json"),
    include_bytes!("../abi/c113.json"),
    include_bytes!("../abi/c114.json"),
    include_bytes!("../abi/c115.json"),
    include_bytes!("../abi/c116.json"),
    include_bytes!("../abi/c117.json"),
    include_bytes!("../abi/c118.json"),
    include_bytes!("../abi/c119.json"),
    include_bytes!("../abi/c120.json"),
    include_bytes!("../abi/c121.json"),
    include_bytes!("../abi/c122.json"),
    include_bytes!("../abi/c123.json"),
    include_bytes!("../abi/c124.json"),
    include_bytes!("../abi/c125.json"),
    include_bytes!("../abi/c126.json"),
    include_bytes!("../abi/c127.json"),
    include_bytes!("../abi/c128.json"),
    include_bytes!("../abi/c129.json"),
    include_bytes!("../abi/c130.json"),
    include_bytes!("../abi/c131.json"),
    include_bytes!("../abi/c132.json"),
    include_bytes!("../abi/c133.json"),
    include_bytes!("../abi/c134.json"),
    include_bytes!("../abi/c135.json"),
    include_bytes!("../abi/c136.json"),
    include_bytes!("../abi/c137.json"),
    include_bytes!("../abi/c138.json"),
    include_bytes!("../abi/c139.json"),
    include_bytes!("../abi/c140.json"),
    include_bytes!("../abi/c141.json"),
    include_bytes!("../abi/c142.json"),
    include_bytes!("../abi/c143.json"),
    include_bytes!("../abi/c144.json"),
    include_bytes!("../abi/c145.json"),
    include_bytes!("../abi/c146.json"),
    include_bytes!("../abi/c147.json"),
    include_bytes!("../abi/c148.json"),
    include_bytes!("../abi/c149.json"),
    include_bytes!("../abi/c150.json"),
    include_bytes!("../abi/c151.json"),
    include_bytes!("../abi/c152.json"),
    include_bytes!("../abi/c153.json"),
    include_bytes!("../abi/c154.json"),
    include_bytes!("../abi/c155.json"),
    include_bytes!("../abi/c156.json"),
    include_bytes!("../abi/c157.json"),
    include_bytes!("../abi/c158.json"),
    include_bytes!("../abi/c159.json"),
    include_bytes!("../abi/c160.json"),
    include_bytes!("../abi/c161.json"),
    include_bytes!("../abi/c162.json"),
    include_bytes!("../abi/c163.json"),
    include_bytes!("../abi/c164.json"),
    include_bytes!("../abi/c165.json"),
    include_bytes!("../abi/c166.json"),
    include_bytes!("../abi/c167.json"),
    include_bytes!("../abi/c168.json"),
    include_bytes!("../abi/c169.json"),
    include_bytes!("../abi/c170.json"),
    include_bytes!("../abi/c171.json"),
    include_bytes!("../abi/c172.json"),
    include_bytes!("../abi/c173.json"),
    include_bytes!("../abi/c174.json"),
    include_bytes!("../abi/c175.json"),
    include_bytes!("../abi/c176.json"),
    include_bytes!("../abi/c177.json"),
    include_bytes!("../abi/c178.json"),
    include_bytes!("../abi/c179.json"),
    include_bytes!("../abi/c180.json"),
];

fn u0(r: ethabi::Result<Address>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e0(v: &[Val]) -> Vec<u8> { c0::functions::fun0::encode_input(arg::<Address>(v, 0)) }
fn d0(d: &[u8], t: &[Ty]) -> Out { u0(c0::functions::fun0::decode_output(d), t) }
fn k0(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun0::call(arg::<Address>(v, 0)); (i, u0(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1(v: &[Val]) -> Vec<u8> { c0::functions::fun1::encode_input(arg::<bool>(v, 0)) }
fn d1(d: &[u8], t: &[Ty]) -> Out { u1(c0::functions::fun1::decode_output(d), t) }
fn k1(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun1::call(arg::<bool>(v, 0)); (i, u1(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u2(r: ethabi::Result<String>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e2(v: &[Val]) -> Vec<u8> { c0::functions::fun2::encode_input(arg::<String>(v, 0)) }
fn d2(d: &[u8], t: &[Ty]) -> Out { u2(c0::functions::fun2::decode_output(d), t) }
fn k2(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun2::call(arg::<String>(v, 0)); (i, u2(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u3(r: ethabi::Result<Vec<u8>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e3(v: &[Val]) -> Vec<u8> { c0::functions::fun3::encode_input(arg::<Vec<u8>>(v, 0)) }
fn d3(d: &[u8], t: &[Ty]) -> Out { u3(c0::functions::fun3::decode_output(d), t) }
fn k3(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun3::call(arg::<Vec<u8>>(v, 0)); (i, u3(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u4(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e4(v: &[Val]) -> Vec<u8> { c0::functions::fun4::encode_input(arg::<Uint>(v, 0)) }
fn d4(d: &[u8], t: &[Ty]) -> Out { u4(c0::functions::fun4::decode_output(d), t) }
fn k4(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun4::call(arg::<Uint>(v, 0)); (i, u4(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u5(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e5(v: &[Val]) -> Vec<u8> { c0::functions::fun5::encode_input(arg::<Uint>(v, 0)) }
fn d5(d: &[u8], t: &[Ty]) -> Out { u5(c0::functions::fun5::decode_output(d), t) }
fn k5(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun5::call(arg::<Uint>(v, 0)); (i, u5(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u6(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e6(v: &[Val]) -> Vec<u8> { c0::functions::fun6::encode_input(arg::<Uint>(v, 0)) }
fn d6(d: &[u8], t: &[Ty]) -> Out { u6(c0::functions::fun6::decode_output(d), t) }
fn k6(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun6::call(arg::<Uint>(v, 0)); (i, u6(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u7(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e7(v: &[Val]) -> Vec<u8> { c0::functions::fun7::encode_input(arg::<Uint>(v, 0)) }
fn d7(d: &[u8], t: &[Ty]) -> Out { u7(c0::functions::fun7::decode_output(d), t) }
fn k7(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun7::call(arg::<Uint>(v, 0)); (i, u7(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u8(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e8(v: &[Val]) -> Vec<u8> { c0::functions::fun8::encode_input(arg::<Uint>(v, 0)) }
fn d8(d: &[u8], t: &[Ty]) -> Out { u8(c0::functions::fun8::decode_output(d), t) }
fn k8(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun8::call(arg::<Uint>(v, 0)); (i, u8(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u9(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e9(v: &[Val]) -> Vec<u8> { c0::functions::fun9::encode_input(arg::<Uint>(v, 0)) }
fn d9(d: &[u8], t: &[Ty]) -> Out { u9(c0::functions::fun9::decode_output(d), t) }
fn k9(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun9::call(arg::<Uint>(v, 0)); (i, u9(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u10(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e10(v: &[Val]) -> Vec<u8> { c0::functions::fun10::encode_input(arg::<Uint>(v, 0)) }
fn d10(d: &[u8], t: &[Ty]) -> Out { u10(c0::functions::fun10::decode_output(d), t) }
fn k10(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun10::call(arg::<Uint>(v, 0)); (i, u10(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u11(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e11(v: &[Val]) -> Vec<u8> { c0::functions::fun11::encode_input(arg::<Uint>(v, 0)) }
fn d11(d: &[u8], t: &[Ty]) -> Out { u11(c0::functions::fun11::decode_output(d), t) }
fn k11(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun11::call(arg::<Uint>(v, 0)); (i, u11(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u12(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e12(v: &[Val]) -> Vec<u8> { c0::functions::fun12::encode_input(arg::<Uint>(v, 0)) }
fn d12(d: &[u8], t: &[Ty]) -> Out { u12(c0::functions::fun12::decode_output(d), t) }
fn k12(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun12::call(arg::<Uint>(v, 0)); (i, u12(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u13(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e13(v: &[Val]) -> Vec<u8> { c0::functions::fun13::encode_input(arg::<Uint>(v, 0)) }
fn d13(d: &[u8], t: &[Ty]) -> Out { u13(c0::functions::fun13::decode_output(d), t) }
fn k13(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun13::call(arg::<Uint>(v, 0)); (i, u13(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u14(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e14(v: &[Val]) -> Vec<u8> { c0::functions::fun14::encode_input(arg::<Uint>(v, 0)) }
fn d14(d: &[u8], t: &[Ty]) -> Out { u14(c0::functions::fun14::decode_output(d), t) }
fn k14(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun14::call(arg::<Uint>(v, 0)); (i, u14(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u15(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e15(v: &[Val]) -> Vec<u8> { c0::functions::fun15::encode_input(arg::<Uint>(v, 0)) }
fn d15(d: &[u8], t: &[Ty]) -> Out { u15(c0::functions::fun15::decode_output(d), t) }
fn k15(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun15::call(arg::<Uint>(v, 0)); (i, u15(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u16(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e16(v: &[Val]) -> Vec<u8> { c0::functions::fun16::encode_input(arg::<Uint>(v, 0)) }
fn d16(d: &[u8], t: &[Ty]) -> Out { u16(c0::functions::fun16::decode_output(d), t) }
fn k16(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun16::call(arg::<Uint>(v, 0)); (i, u16(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u17(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e17(v: &[Val]) -> Vec<u8> { c0::functions::fun17::encode_input(arg::<Uint>(v, 0)) }
fn d17(d: &[u8], t: &[Ty]) -> Out { u17(c0::functions::fun17::decode_output(d), t) }
fn k17(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun17::call(arg::<Uint>(v, 0)); (i, u17(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u18(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e18(v: &[Val]) -> Vec<u8> { c0::functions::fun18::encode_input(arg::<Uint>(v, 0)) }
fn d18(d: &[u8], t: &[Ty]) -> Out { u18(c0::functions::fun18::decode_output(d), t) }
fn k18(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun18::call(arg::<Uint>(v, 0)); (i, u18(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u19(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e19(v: &[Val]) -> Vec<u8> { c0::functions::fun19::encode_input(arg::<Uint>(v, 0)) }
fn d19(d: &[u8], t: &[Ty]) -> Out { u19(c0::functions::fun19::decode_output(d), t) }
fn k19(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun19::call(arg::<Uint>(v, 0)); (i, u19(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u20(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e20(v: &[Val]) -> Vec<u8> { c0::functions::fun20::encode_input(arg::<Uint>(v, 0)) }
fn d20(d: &[u8], t: &[Ty]) -> Out { u20(c0::functions::fun20::decode_output(d), t) }
fn k20(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun20::call(arg::<Uint>(v, 0)); (i, u20(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u21(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e21(v: &[Val]) -> Vec<u8> { c0::functions::fun21::encode_input(arg::<Uint>(v, 0)) }
fn d21(d: &[u8], t: &[Ty]) -> Out { u21(c0::functions::fun21::decode_output(d), t) }
fn k21(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun21::call(arg::<Uint>(v, 0)); (i, u21(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u22(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e22(v: &[Val]) -> Vec<u8> { c0::functions::fun22::encode_input(arg::<Uint>(v, 0)) }
fn d22(d: &[u8], t: &[Ty]) -> Out { u22(c0::functions::fun22::decode_output(d), t) }
fn k22(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun22::call(arg::<Uint>(v, 0)); (i, u22(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u23(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e23(v: &[Val]) -> Vec<u8> { c0::functions::fun23::encode_input(arg::<Uint>(v, 0)) }
fn d23(d: &[u8], t: &[Ty]) -> Out { u23(c0::functions::fun23::decode_output(d), t) }
fn k23(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun23::call(arg::<Uint>(v, 0)); (i, u23(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u24(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e24(v: &[Val]) -> Vec<u8> { c0::functions::fun24::encode_input(arg::<Uint>(v, 0)) }
fn d24(d: &[u8], t: &[Ty]) -> Out { u24(c0::functions::fun24::decode_output(d), t) }
fn k24(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun24::call(arg::<Uint>(v, 0)); (i, u24(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u25(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e25(v: &[Val]) -> Vec<u8> { c0::functions::fun25::encode_input(arg::<Uint>(v, 0)) }
fn d25(d: &[u8], t: &[Ty]) -> Out { u25(c0::functions::fun25::decode_output(d), t) }
fn k25(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun25::call(arg::<Uint>(v, 0)); (i, u25(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u26(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e26(v: &[Val]) -> Vec<u8> { c0::functions::fun26::encode_input(arg::<Uint>(v, 0)) }
fn d26(d: &[u8], t: &[Ty]) -> Out { u26(c0::functions::fun26::decode_output(d), t) }
fn k26(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun26::call(arg::<Uint>(v, 0)); (i, u26(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u27(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e27(v: &[Val]) -> Vec<u8> { c0::functions::fun27::encode_input(arg::<Uint>(v, 0)) }
fn d27(d: &[u8], t: &[Ty]) -> Out { u27(c0::functions::fun27::decode_output(d), t) }
fn k27(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun27::call(arg::<Uint>(v, 0)); (i, u27(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u28(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e28(v: &[Val]) -> Vec<u8> { c0::functions::fun28::encode_input(arg::<Uint>(v, 0)) }
fn d28(d: &[u8], t: &[Ty]) -> Out { u28(c0::functions::fun28::decode_output(d), t) }
fn k28(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun28::call(arg::<Uint>(v, 0)); (i, u28(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u29(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e29(v: &[Val]) -> Vec<u8> { c0::functions::fun29::encode_input(arg::<Uint>(v, 0)) }
fn d29(d: &[u8], t: &[Ty]) -> Out { u29(c0::functions::fun29::decode_output(d), t) }
fn k29(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun29::call(arg::<Uint>(v, 0)); (i, u29(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u30(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e30(v: &[Val]) -> Vec<u8> { c0::functions::fun30::encode_input(arg::<Uint>(v, 0)) }
fn d30(d: &[u8], t: &[Ty]) -> Out { u30(c0::functions::fun30::decode_output(d), t) }
fn k30(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun30::call(arg::<Uint>(v, 0)); (i, u30(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u31(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e31(v: &[Val]) -> Vec<u8> { c0::functions::fun31::encode_input(arg::<Uint>(v, 0)) }
fn d31(d: &[u8], t: &[Ty]) -> Out { u31(c0::functions::fun31::decode_output(d), t) }
fn k31(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun31::call(arg::<Uint>(v, 0)); (i, u31(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u32(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e32(v: &[Val]) -> Vec<u8> { c0::functions::fun32::encode_input(arg::<Uint>(v, 0)) }
fn d32(d: &[u8], t: &[Ty]) -> Out { u32(c0::functions::fun32::decode_output(d), t) }
fn k32(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun32::call(arg::<Uint>(v, 0)); (i, u32(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u33(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e33(v: &[Val]) -> Vec<u8> { c0::functions::fun33::encode_input(arg::<Uint>(v, 0)) }
fn d33(d: &[u8], t: &[Ty]) -> Out { u33(c0::functions::fun33::decode_output(d), t) }
fn k33(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun33::call(arg::<Uint>(v, 0)); (i, u33(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u34(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e34(v: &[Val]) -> Vec<u8> { c0::functions::fun34::encode_input(arg::<Uint>(v, 0)) }
fn d34(d: &[u8], t: &[Ty]) -> Out { u34(c0::functions::fun34::decode_output(d), t) }
fn k34(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun34::call(arg::<Uint>(v, 0)); (i, u34(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u35(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e35(v: &[Val]) -> Vec<u8> { c0::functions::fun35::encode_input(arg::<Uint>(v, 0)) }
fn d35(d: &[u8], t: &[Ty]) -> Out { u35(c0::functions::fun35::decode_output(d), t) }
fn k35(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun35::call(arg::<Uint>(v, 0)); (i, u35(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u36(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e36(v: &[Val]) -> Vec<u8> { c0::functions::fun36::encode_input(arg::<Uint>(v, 0)) }
fn d36(d: &[u8], t: &[Ty]) -> Out { u36(c0::functions::fun36::decode_output(d), t) }
fn k36(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun36::call(arg::<Uint>(v, 0)); (i, u36(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u37(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e37(v: &[Val]) -> Vec<u8> { c0::functions::fun37::encode_input(arg::<Uint>(v, 0)) }
fn d37(d: &[u8], t: &[Ty]) -> Out { u37(c0::functions::fun37::decode_output(d), t) }
fn k37(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun37::call(arg::<Uint>(v, 0)); (i, u37(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u38(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e38(v: &[Val]) -> Vec<u8> { c0::functions::fun38::encode_input(arg::<Uint>(v, 0)) }
fn d38(d: &[u8], t: &[Ty]) -> Out { u38(c0::functions::fun38::decode_output(d), t) }
fn k38(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun38::call(arg::<Uint>(v, 0)); (i, u38(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u39(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e39(v: &[Val]) -> Vec<u8> { c0::functions::fun39::encode_input(arg::<Uint>(v, 0)) }
fn d39(d: &[u8], t: &[Ty]) -> Out { u39(c0::functions::fun39::decode_output(d), t) }
fn k39(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun39::call(arg::<Uint>(v, 0)); (i, u39(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u40(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e40(v: &[Val]) -> Vec<u8> { c0::functions::fun40::encode_input(arg::<Uint>(v, 0)) }
fn d40(d: &[u8], t: &[Ty]) -> Out { u40(c0::functions::fun40::decode_output(d), t) }
fn k40(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun40::call(arg::<Uint>(v, 0)); (i, u40(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u41(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e41(v: &[Val]) -> Vec<u8> { c0::functions::fun41::encode_input(arg::<Uint>(v, 0)) }
fn d41(d: &[u8], t: &[Ty]) -> Out { u41(c0::functions::fun41::decode_output(d), t) }
fn k41(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun41::call(arg::<Uint>(v, 0)); (i, u41(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u42(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e42(v: &[Val]) -> Vec<u8> { c0::functions::fun42::encode_input(arg::<Uint>(v, 0)) }
fn d42(d: &[u8], t: &[Ty]) -> Out { u42(c0::functions::fun42::decode_output(d), t) }
fn k42(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun42::call(arg::<Uint>(v, 0)); (i, u42(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u43(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e43(v: &[Val]) -> Vec<u8> { c0::functions::fun43::encode_input(arg::<Uint>(v, 0)) }
fn d43(d: &[u8], t: &[Ty]) -> Out { u43(c0::functions::fun43::decode_output(d), t) }
fn k43(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun43::call(arg::<Uint>(v, 0)); (i, u43(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u44(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e44(v: &[Val]) -> Vec<u8> { c0::functions::fun44::encode_input(arg::<Uint>(v, 0)) }
fn d44(d: &[u8], t: &[Ty]) -> Out { u44(c0::functions::fun44::decode_output(d), t) }
fn k44(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun44::call(arg::<Uint>(v, 0)); (i, u44(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u45(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e45(v: &[Val]) -> Vec<u8> { c0::functions::fun45::encode_input(arg::<Uint>(v, 0)) }
fn d45(d: &[u8], t: &[Ty]) -> Out { u45(c0::functions::fun45::decode_output(d), t) }
fn k45(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun45::call(arg::<Uint>(v, 0)); (i, u45(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u46(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e46(v: &[Val]) -> Vec<u8> { c0::functions::fun46::encode_input(arg::<Uint>(v, 0)) }
fn d46(d: &[u8], t: &[Ty]) -> Out { u46(c0::functions::fun46::decode_output(d), t) }
fn k46(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun46::call(arg::<Uint>(v, 0)); (i, u46(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u47(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e47(v: &[Val]) -> Vec<u8> { c0::functions::fun47::encode_input(arg::<Uint>(v, 0)) }
fn d47(d: &[u8], t: &[Ty]) -> Out { u47(c0::functions::fun47::decode_output(d), t) }
fn k47(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun47::call(arg::<Uint>(v, 0)); (i, u47(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u48(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e48(v: &[Val]) -> Vec<u8> { c0::functions::fun48::encode_input(arg::<Uint>(v, 0)) }
fn d48(d: &[u8], t: &[Ty]) -> Out { u48(c0::functions::fun48::decode_output(d), t) }
fn k48(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun48::call(arg::<Uint>(v, 0)); (i, u48(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u49(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e49(v: &[Val]) -> Vec<u8> { c0::functions::fun49::encode_input(arg::<Uint>(v, 0)) }
fn d49(d: &[u8], t: &[Ty]) -> Out { u49(c0::functions::fun49::decode_output(d), t) }
fn k49(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun49::call(arg::<Uint>(v, 0)); (i, u49(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u50(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e50(v: &[Val]) -> Vec<u8> { c0::functions::fun50::encode_input(arg::<Uint>(v, 0)) }
fn d50(d: &[u8], t: &[Ty]) -> Out { u50(c0::functions::fun50::decode_output(d), t) }
fn k50(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun50::call(arg::<Uint>(v, 0)); (i, u50(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u51(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e51(v: &[Val]) -> Vec<u8> { c0::functions::fun51::encode_input(arg::<Uint>(v, 0)) }
fn d51(d: &[u8], t: &[Ty]) -> Out { u51(c0::functions::fun51::decode_output(d), t) }
fn k51(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun51::call(arg::<Uint>(v, 0)); (i, u51(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u52(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e52(v: &[Val]) -> Vec<u8> { c0::functions::fun52::encode_input(arg::<Uint>(v, 0)) }
fn d52(d: &[u8], t: &[Ty]) -> Out { u52(c0::functions::fun52::decode_output(d), t) }
fn k52(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun52::call(arg::<Uint>(v, 0)); (i, u52(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u53(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e53(v: &[Val]) -> Vec<u8> { c0::functions::fun53::encode_input(arg::<Uint>(v, 0)) }
fn d53(d: &[u8], t: &[Ty]) -> Out { u53(c0::functions::fun53::decode_output(d), t) }
fn k53(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun53::call(arg::<Uint>(v, 0)); (i, u53(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u54(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e54(v: &[Val]) -> Vec<u8> { c0::functions::fun54::encode_input(arg::<Uint>(v, 0)) }
fn d54(d: &[u8], t: &[Ty]) -> Out { u54(c0::functions::fun54::decode_output(d), t) }
fn k54(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun54::call(arg::<Uint>(v, 0)); (i, u54(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u55(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e55(v: &[Val]) -> Vec<u8> { c0::functions::fun55::encode_input(arg::<Uint>(v, 0)) }
fn d55(d: &[u8], t: &[Ty]) -> Out { u55(c0::functions::fun55::decode_output(d), t) }
fn k55(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun55::call(arg::<Uint>(v, 0)); (i, u55(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u56(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e56(v: &[Val]) -> Vec<u8> { c0::functions::fun56::encode_input(arg::<Uint>(v, 0)) }
fn d56(d: &[u8], t: &[Ty]) -> Out { u56(c0::functions::fun56::decode_output(d), t) }
fn k56(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun56::call(arg::<Uint>(v, 0)); (i, u56(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u57(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e57(v: &[Val]) -> Vec<u8> { c0::functions::fun57::encode_input(arg::<Uint>(v, 0)) }
fn d57(d: &[u8], t: &[Ty]) -> Out { u57(c0::functions::fun57::decode_output(d), t) }
fn k57(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun57::call(arg::<Uint>(v, 0)); (i, u57(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u58(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e58(v: &[Val]) -> Vec<u8> { c0::functions::fun58::encode_input(arg::<Uint>(v, 0)) }
fn d58(d: &[u8], t: &[Ty]) -> Out { u58(c0::functions::fun58::decode_output(d), t) }
fn k58(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun58::call(arg::<Uint>(v, 0)); (i, u58(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u59(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e59(v: &[Val]) -> Vec<u8> { c0::functions::fun59::encode_input(arg::<Uint>(v, 0)) }
fn d59(d: &[u8], t: &[Ty]) -> Out { u59(c0::functions::fun59::decode_output(d), t) }
fn k59(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun59::call(arg::<Uint>(v, 0)); (i, u59(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u60(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e60(v: &[Val]) -> Vec<u8> { c0::functions::fun60::encode_input(arg::<Uint>(v, 0)) }
fn d60(d: &[u8], t: &[Ty]) -> Out { u60(c0::functions::fun60::decode_output(d), t) }
fn k60(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun60::call(arg::<Uint>(v, 0)); (i, u60(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u61(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e61(v: &[Val]) -> Vec<u8> { c0::functions::fun61::encode_input(arg::<Uint>(v, 0)) }
fn d61(d: &[u8], t: &[Ty]) -> Out { u61(c0::functions::fun61::decode_output(d), t) }
fn k61(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun61::call(arg::<Uint>(v, 0)); (i, u61(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u62(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e62(v: &[Val]) -> Vec<u8> { c0::functions::fun62::encode_input(arg::<Uint>(v, 0)) }
fn d62(d: &[u8], t: &[Ty]) -> Out { u62(c0::functions::fun62::decode_output(d), t) }
fn k62(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun62::call(arg::<Uint>(v, 0)); (i, u62(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u63(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e63(v: &[Val]) -> Vec<u8> { c0::functions::fun63::encode_input(arg::<Uint>(v, 0)) }
fn d63(d: &[u8], t: &[Ty]) -> Out { u63(c0::functions::fun63::decode_output(d), t) }
fn k63(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun63::call(arg::<Uint>(v, 0)); (i, u63(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u64(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e64(v: &[Val]) -> Vec<u8> { c0::functions::fun64::encode_input(arg::<Uint>(v, 0)) }
fn d64(d: &[u8], t: &[Ty]) -> Out { u64(c0::functions::fun64::decode_output(d), t) }
fn k64(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun64::call(arg::<Uint>(v, 0)); (i, u64(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u65(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e65(v: &[Val]) -> Vec<u8> { c0::functions::fun65::encode_input(arg::<Uint>(v, 0)) }
fn d65(d: &[u8], t: &[Ty]) -> Out { u65(c0::functions::fun65::decode_output(d), t) }
fn k65(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun65::call(arg::<Uint>(v, 0)); (i, u65(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u66(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e66(v: &[Val]) -> Vec<u8> { c0::functions::fun66::encode_input(arg::<Uint>(v, 0)) }
fn d66(d: &[u8], t: &[Ty]) -> Out { u66(c0::functions::fun66::decode_output(d), t) }
fn k66(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun66::call(arg::<Uint>(v, 0)); (i, u66(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u67(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e67(v: &[Val]) -> Vec<u8> { c0::functions::fun67::encode_input(arg::<Uint>(v, 0)) }
fn d67(d: &[u8], t: &[Ty]) -> Out { u67(c0::functions::fun67::decode_output(d), t) }
fn k67(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun67::call(arg::<Uint>(v, 0)); (i, u67(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u68(r: ethabi::Result<[u8; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e68(v: &[Val]) -> Vec<u8> { c0::functions::fun68::encode_input(arg::<[u8; 1]>(v, 0)) }
fn d68(d: &[u8], t: &[Ty]) -> Out { u68(c0::functions::fun68::decode_output(d), t) }
fn k68(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun68::call(arg::<[u8; 1]>(v, 0)); (i, u68(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u69(r: ethabi::Result<[u8; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e69(v: &[Val]) -> Vec<u8> { c0::functions::fun69::encode_input(arg::<[u8; 2]>(v, 0)) }
fn d69(d: &[u8], t: &[Ty]) -> Out { u69(c0::functions::fun69::decode_output(d), t) }
fn k69(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun69::call(arg::<[u8; 2]>(v, 0)); (i, u69(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u70(r: ethabi::Result<[u8; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e70(v: &[Val]) -> Vec<u8> { c0::functions::fun70::encode_input(arg::<[u8; 3]>(v, 0)) }
fn d70(d: &[u8], t: &[Ty]) -> Out { u70(c0::functions::fun70::decode_output(d), t) }
fn k70(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun70::call(arg::<[u8; 3]>(v, 0)); (i, u70(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u71(r: ethabi::Result<[u8; 4]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e71(v: &[Val]) -> Vec<u8> { c0::functions::fun71::encode_input(arg::<[u8; 4]>(v, 0)) }
fn d71(d: &[u8], t: &[Ty]) -> Out { u71(c0::functions::fun71::decode_output(d), t) }
fn k71(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun71::call(arg::<[u8; 4]>(v, 0)); (i, u71(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u72(r: ethabi::Result<[u8; 5]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e72(v: &[Val]) -> Vec<u8> { c0::functions::fun72::encode_input(arg::<[u8; 5]>(v, 0)) }
fn d72(d: &[u8], t: &[Ty]) -> Out { u72(c0::functions::fun72::decode_output(d), t) }
fn k72(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun72::call(arg::<[u8; 5]>(v, 0)); (i, u72(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u73(r: ethabi::Result<[u8; 6]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e73(v: &[Val]) -> Vec<u8> { c0::functions::fun73::encode_input(arg::<[u8; 6]>(v, 0)) }
fn d73(d: &[u8], t: &[Ty]) -> Out { u73(c0::functions::fun73::decode_output(d), t) }
fn k73(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun73::call(arg::<[u8; 6]>(v, 0)); (i, u73(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u74(r: ethabi::Result<[u8; 7]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e74(v: &[Val]) -> Vec<u8> { c0::functions::fun74::encode_input(arg::<[u8; 7]>(v, 0)) }
fn d74(d: &[u8], t: &[Ty]) -> Out { u74(c0::functions::fun74::decode_output(d), t) }
fn k74(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun74::call(arg::<[u8; 7]>(v, 0)); (i, u74(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u75(r: ethabi::Result<[u8; 8]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e75(v: &[Val]) -> Vec<u8> { c0::functions::fun75::encode_input(arg::<[u8; 8]>(v, 0)) }
fn d75(d: &[u8], t: &[Ty]) -> Out { u75(c0::functions::fun75::decode_output(d), t) }
fn k75(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun75::call(arg::<[u8; 8]>(v, 0)); (i, u75(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u76(r: ethabi::Result<[u8; 9]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e76(v: &[Val]) -> Vec<u8> { c0::functions::fun76::encode_input(arg::<[u8; 9]>(v, 0)) }
fn d76(d: &[u8], t: &[Ty]) -> Out { u76(c0::functions::fun76::decode_output(d), t) }
fn k76(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun76::call(arg::<[u8; 9]>(v, 0)); (i, u76(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u77(r: ethabi::Result<[u8; 10]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e77(v: &[Val]) -> Vec<u8> { c0::functions::fun77::encode_input(arg::<[u8; 10]>(v, 0)) }
fn d77(d: &[u8], t: &[Ty]) -> Out { u77(c0::functions::fun77::decode_output(d), t) }
fn k77(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun77::call(arg::<[u8; 10]>(v, 0)); (i, u77(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u78(r: ethabi::Result<[u8; 11]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e78(v: &[Val]) -> Vec<u8> { c0::functions::fun78::encode_input(arg::<[u8; 11]>(v, 0)) }
fn d78(d: &[u8], t: &[Ty]) -> Out { u78(c0::functions::fun78::decode_output(d), t) }
fn k78(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun78::call(arg::<[u8; 11]>(v, 0)); (i, u78(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u79(r: ethabi::Result<[u8; 12]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e79(v: &[Val]) -> Vec<u8> { c0::functions::fun79::encode_input(arg::<[u8; 12]>(v, 0)) }
fn d79(d: &[u8], t: &[Ty]) -> Out { u79(c0::functions::fun79::decode_output(d), t) }
fn k79(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun79::call(arg::<[u8; 12]>(v, 0)); (i, u79(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u80(r: ethabi::Result<[u8; 13]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e80(v: &[Val]) -> Vec<u8> { c0::functions::fun80::encode_input(arg::<[u8; 13]>(v, 0)) }
fn d80(d: &[u8], t: &[Ty]) -> Out { u80(c0::functions::fun80::decode_output(d), t) }
fn k80(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun80::call(arg::<[u8; 13]>(v, 0)); (i, u80(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u81(r: ethabi::Result<[u8; 14]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e81(v: &[Val]) -> Vec<u8> { c0::functions::fun81::encode_input(arg::<[u8; 14]>(v, 0)) }
fn d81(d: &[u8], t: &[Ty]) -> Out { u81(c0::functions::fun81::decode_output(d), t) }
fn k81(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun81::call(arg::<[u8; 14]>(v, 0)); (i, u81(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u82(r: ethabi::Result<[u8; 15]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e82(v: &[Val]) -> Vec<u8> { c0::functions::fun82::encode_input(arg::<[u8; 15]>(v, 0)) }
fn d82(d: &[u8], t: &[Ty]) -> Out { u82(c0::functions::fun82::decode_output(d), t) }
fn k82(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun82::call(arg::<[u8; 15]>(v, 0)); (i, u82(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u83(r: ethabi::Result<[u8; 16]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e83(v: &[Val]) -> Vec<u8> { c0::functions::fun83::encode_input(arg::<[u8; 16]>(v, 0)) }
fn d83(d: &[u8], t: &[Ty]) -> Out { u83(c0::functions::fun83::decode_output(d), t) }
fn k83(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun83::call(arg::<[u8; 16]>(v, 0)); (i, u83(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u84(r: ethabi::Result<[u8; 17]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e84(v: &[Val]) -> Vec<u8> { c0::functions::fun84::encode_input(arg::<[u8; 17]>(v, 0)) }
fn d84(d: &[u8], t: &[Ty]) -> Out { u84(c0::functions::fun84::decode_output(d), t) }
fn k84(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun84::call(arg::<[u8; 17]>(v, 0)); (i, u84(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u85(r: ethabi::Result<[u8; 18]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e85(v: &[Val]) -> Vec<u8> { c0::functions::fun85::encode_input(arg::<[u8; 18]>(v, 0)) }
fn d85(d: &[u8], t: &[Ty]) -> Out { u85(c0::functions::fun85::decode_output(d), t) }
fn k85(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun85::call(arg::<[u8; 18]>(v, 0)); (i, u85(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u86(r: ethabi::Result<[u8; 19]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e86(v: &[Val]) -> Vec<u8> { c0::functions::fun86::encode_input(arg::<[u8; 19]>(v, 0)) }
fn d86(d: &[u8], t: &[Ty]) -> Out { u86(c0::functions::fun86::decode_output(d), t) }
fn k86(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun86::call(arg::<[u8; 19]>(v, 0)); (i, u86(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u87(r: ethabi::Result<[u8; 20]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e87(v: &[Val]) -> Vec<u8> { c0::functions::fun87::encode_input(arg::<[u8; 20]>(v, 0)) }
fn d87(d: &[u8], t: &[Ty]) -> Out { u87(c0::functions::fun87::decode_output(d), t) }
fn k87(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun87::call(arg::<[u8; 20]>(v, 0)); (i, u87(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u88(r: ethabi::Result<[u8; 21]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e88(v: &[Val]) -> Vec<u8> { c0::functions::fun88::encode_input(arg::<[u8; 21]>(v, 0)) }
fn d88(d: &[u8], t: &[Ty]) -> Out { u88(c0::functions::fun88::decode_output(d), t) }
fn k88(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun88::call(arg::<[u8; 21]>(v, 0)); (i, u88(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u89(r: ethabi::Result<[u8; 22]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e89(v: &[Val]) -> Vec<u8> { c0::functions::fun89::encode_input(arg::<[u8; 22]>(v, 0)) }
fn d89(d: &[u8], t: &[Ty]) -> Out { u89(c0::functions::fun89::decode_output(d), t) }
fn k89(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun89::call(arg::<[u8; 22]>(v, 0)); (i, u89(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u90(r: ethabi::Result<[u8; 23]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e90(v: &[Val]) -> Vec<u8> { c0::functions::fun90::encode_input(arg::<[u8; 23]>(v, 0)) }
fn d90(d: &[u8], t: &[Ty]) -> Out { u90(c0::functions::fun90::decode_output(d), t) }
fn k90(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun90::call(arg::<[u8; 23]>(v, 0)); (i, u90(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u91(r: ethabi::Result<[u8; 24]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e91(v: &[Val]) -> Vec<u8> { c0::functions::fun91::encode_input(arg::<[u8; 24]>(v, 0)) }
fn d91(d: &[u8], t: &[Ty]) -> Out { u91(c0::functions::fun91::decode_output(d), t) }
fn k91(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun91::call(arg::<[u8; 24]>(v, 0)); (i, u91(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u92(r: ethabi::Result<[u8; 25]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e92(v: &[Val]) -> Vec<u8> { c0::functions::fun92::encode_input(arg::<[u8; 25]>(v, 0)) }
fn d92(d: &[u8], t: &[Ty]) -> Out { u92(c0::functions::fun92::decode_output(d), t) }
fn k92(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun92::call(arg::<[u8; 25]>(v, 0)); (i, u92(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u93(r: ethabi::Result<[u8; 26]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e93(v: &[Val]) -> Vec<u8> { c0::functions::fun93::encode_input(arg::<[u8; 26]>(v, 0)) }
fn d93(d: &[u8], t: &[Ty]) -> Out { u93(c0::functions::fun93::decode_output(d), t) }
fn k93(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun93::call(arg::<[u8; 26]>(v, 0)); (i, u93(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u94(r: ethabi::Result<[u8; 27]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e94(v: &[Val]) -> Vec<u8> { c0::functions::fun94::encode_input(arg::<[u8; 27]>(v, 0)) }
fn d94(d: &[u8], t: &[Ty]) -> Out { u94(c0::functions::fun94::decode_output(d), t) }
fn k94(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun94::call(arg::<[u8; 27]>(v, 0)); (i, u94(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u95(r: ethabi::Result<[u8; 28]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e95(v: &[Val]) -> Vec<u8> { c0::functions::fun95::encode_input(arg::<[u8; 28]>(v, 0)) }
fn d95(d: &[u8], t: &[Ty]) -> Out { u95(c0::functions::fun95::decode_output(d), t) }
fn k95(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun95::call(arg::<[u8; 28]>(v, 0)); (i, u95(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u96(r: ethabi::Result<[u8; 29]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e96(v: &[Val]) -> Vec<u8> { c0::functions::fun96::encode_input(arg::<[u8; 29]>(v, 0)) }
fn d96(d: &[u8], t: &[Ty]) -> Out { u96(c0::functions::fun96::decode_output(d), t) }
fn k96(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun96::call(arg::<[u8; 29]>(v, 0)); (i, u96(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u97(r: ethabi::Result<[u8; 30]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e97(v: &[Val]) -> Vec<u8> { c0::functions::fun97::encode_input(arg::<[u8; 30]>(v, 0)) }
fn d97(d: &[u8], t: &[Ty]) -> Out { u97(c0::functions::fun97::decode_output(d), t) }
fn k97(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun97::call(arg::<[u8; 30]>(v, 0)); (i, u97(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u98(r: ethabi::Result<[u8; 31]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e98(v: &[Val]) -> Vec<u8> { c0::functions::fun98::encode_input(arg::<[u8; 31]>(v, 0)) }
fn d98(d: &[u8], t: &[Ty]) -> Out { u98(c0::functions::fun98::decode_output(d), t) }
fn k98(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun98::call(arg::<[u8; 31]>(v, 0)); (i, u98(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u99(r: ethabi::Result<Hash>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e99(v: &[Val]) -> Vec<u8> { c0::functions::fun99::encode_input(arg::<Hash>(v, 0)) }
fn d99(d: &[u8], t: &[Ty]) -> Out { u99(c0::functions::fun99::decode_output(d), t) }
fn k99(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c0::functions::fun99::call(arg::<Hash>(v, 0)); (i, u99(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u100(r: ethabi::Result<Vec<Address>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e100(v: &[Val]) -> Vec<u8> { c1::functions::fun0::encode_input(arg::<Vec<Address>>(v, 0)) }
fn d100(d: &[u8], t: &[Ty]) -> Out { u100(c1::functions::fun0::decode_output(d), t) }
fn k100(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun0::call(arg::<Vec<Address>>(v, 0)); (i, u100(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u101(r: ethabi::Result<[Address; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e101(v: &[Val]) -> Vec<u8> { c1::functions::fun1::encode_input(arg::<[Address; 1]>(v, 0)) }
fn d101(d: &[u8], t: &[Ty]) -> Out { u101(c1::functions::fun1::decode_output(d), t) }
fn k101(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun1::call(arg::<[Address; 1]>(v, 0)); (i, u101(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u102(r: ethabi::Result<[Address; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e102(v: &[Val]) -> Vec<u8> { c1::functions::fun2::encode_input(arg::<[Address; 2]>(v, 0)) }
fn d102(d: &[u8], t: &[Ty]) -> Out { u102(c1::functions::fun2::decode_output(d), t) }
fn k102(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun2::call(arg::<[Address; 2]>(v, 0)); (i, u102(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u103(r: ethabi::Result<[Address; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e103(v: &[Val]) -> Vec<u8> { c1::functions::fun3::encode_input(arg::<[Address; 3]>(v, 0)) }
fn d103(d: &[u8], t: &[Ty]) -> Out { u103(c1::functions::fun3::decode_output(d), t) }
fn k103(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun3::call(arg::<[Address; 3]>(v, 0)); (i, u103(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u104(r: ethabi::Result<Vec<Vec<u8>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e104(v: &[Val]) -> Vec<u8> { c1::functions::fun4::encode_input(arg::<Vec<Vec<u8>>>(v, 0)) }
fn d104(d: &[u8], t: &[Ty]) -> Out { u104(c1::functions::fun4::decode_output(d), t) }
fn k104(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun4::call(arg::<Vec<Vec<u8>>>(v, 0)); (i, u104(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u105(r: ethabi::Result<[Vec<u8>; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e105(v: &[Val]) -> Vec<u8> { c1::functions::fun5::encode_input(arg::<[Vec<u8>; 1]>(v, 0)) }
fn d105(d: &[u8], t: &[Ty]) -> Out { u105(c1::functions::fun5::decode_output(d), t) }
fn k105(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun5::call(arg::<[Vec<u8>; 1]>(v, 0)); (i, u105(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u106(r: ethabi::Result<[Vec<u8>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e106(v: &[Val]) -> Vec<u8> { c1::functions::fun6::encode_input(arg::<[Vec<u8>; 2]>(v, 0)) }
fn d106(d: &[u8], t: &[Ty]) -> Out { u106(c1::functions::fun6::decode_output(d), t) }
fn k106(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun6::call(arg::<[Vec<u8>; 2]>(v, 0)); (i, u106(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u107(r: ethabi::Result<[Vec<u8>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e107(v: &[Val]) -> Vec<u8> { c1::functions::fun7::encode_input(arg::<[Vec<u8>; 3]>(v, 0)) }
fn d107(d: &[u8], t: &[Ty]) -> Out { u107(c1::functions::fun7::decode_output(d), t) }
fn k107(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun7::call(arg::<[Vec<u8>; 3]>(v, 0)); (i, u107(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u108(r: ethabi::Result<Vec<Hash>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e108(v: &[Val]) -> Vec<u8> { c1::functions::fun8::encode_input(arg::<Vec<Hash>>(v, 0)) }
fn d108(d: &[u8], t: &[Ty]) -> Out { u108(c1::functions::fun8::decode_output(d), t) }
fn k108(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun8::call(arg::<Vec<Hash>>(v, 0)); (i, u108(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u109(r: ethabi::Result<[Hash; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e109(v: &[Val]) -> Vec<u8> { c1::functions::fun9::encode_input(arg::<[Hash; 1]>(v, 0)) }
fn d109(d: &[u8], t: &[Ty]) -> Out { u109(c1::functions::fun9::decode_output(d), t) }
fn k109(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun9::call(arg::<[Hash; 1]>(v, 0)); (i, u109(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u110(r: ethabi::Result<[Hash; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e110(v: &[Val]) -> Vec<u8> { c1::functions::fun10::encode_input(arg::<[Hash; 2]>(v, 0)) }
fn d110(d: &[u8], t: &[Ty]) -> Out { u110(c1::functions::fun10::decode_output(d), t) }
fn k110(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun10::call(arg::<[Hash; 2]>(v, 0)); (i, u110(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u111(r: ethabi::Result<[Hash; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e111(v: &[Val]) -> Vec<u8> { c1::functions::fun11::encode_input(arg::<[Hash; 3]>(v, 0)) }
fn d111(d: &[u8], t: &[Ty]) -> Out { u111(c1::functions::fun11::decode_output(d), t) }
fn k111(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun11::call(arg::<[Hash; 3]>(v, 0)); (i, u111(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u112(r: ethabi::Result<Vec<[u8; 4]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e112(v: &[Val]) -> Vec<u8> { c1::functions::fun12::encode_input(arg::<Vec<[u8; 4]>>(v, 0)) }
fn d112(d: &[u8], t: &[Ty]) -> Out { u112(c1::functions::fun12::decode_output(d), t) }
fn k112(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun12::call(arg::<Vec<[u8; 4]>>(v, 0)); (i, u112(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u113(r: ethabi::Result<[[u8; 4]; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e113(v: &[Val]) -> Vec<u8> { c1::functions::fun13::encode_input(arg::<[[u8; 4]; 1]>(v, 0)) }
fn d113(d: &[u8], t: &[Ty]) -> Out { u113(c1::functions::fun13::decode_output(d), t) }
fn k113(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun13::call(arg::<[[u8; 4]; 1]>(v, 0)); (i, u113(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u114(r: ethabi::Result<[[u8; 4]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e114(v: &[Val]) -> Vec<u8> { c1::functions::fun14::encode_input(arg::<[[u8; 4]; 2]>(v, 0)) }
fn d114(d: &[u8], t: &[Ty]) -> Out { u114(c1::functions::fun14::decode_output(d), t) }
fn k114(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun14::call(arg::<[[u8; 4]; 2]>(v, 0)); (i, u114(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u115(r: ethabi::Result<[[u8; 4]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e115(v: &[Val]) -> Vec<u8> { c1::functions::fun15::encode_input(arg::<[[u8; 4]; 3]>(v, 0)) }
fn d115(d: &[u8], t: &[Ty]) -> Out { u115(c1::functions::fun15::decode_output(d), t) }
fn k115(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun15::call(arg::<[[u8; 4]; 3]>(v, 0)); (i, u115(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u116(r: ethabi::Result<Vec<Uint>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e116(v: &[Val]) -> Vec<u8> { c1::functions::fun16::encode_input(arg::<Vec<Uint>>(v, 0)) }
fn d116(d: &[u8], t: &[Ty]) -> Out { u116(c1::functions::fun16::decode_output(d), t) }
fn k116(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun16::call(arg::<Vec<Uint>>(v, 0)); (i, u116(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u117(r: ethabi::Result<[Uint; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e117(v: &[Val]) -> Vec<u8> { c1::functions::fun17::encode_input(arg::<[Uint; 1]>(v, 0)) }
fn d117(d: &[u8], t: &[Ty]) -> Out { u117(c1::functions::fun17::decode_output(d), t) }
fn k117(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun17::call(arg::<[Uint; 1]>(v, 0)); (i, u117(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u118(r: ethabi::Result<[Uint; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e118(v: &[Val]) -> Vec<u8> { c1::functions::fun18::encode_input(arg::<[Uint; 2]>(v, 0)) }
fn d118(d: &[u8], t: &[Ty]) -> Out { u118(c1::functions::fun18::decode_output(d), t) }
fn k118(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun18::call(arg::<[Uint; 2]>(v, 0)); (i, u118(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u119(r: ethabi::Result<[Uint; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e119(v: &[Val]) -> Vec<u8> { c1::functions::fun19::encode_input(arg::<[Uint; 3]>(v, 0)) }
fn d119(d: &[u8], t: &[Ty]) -> Out { u119(c1::functions::fun19::decode_output(d), t) }
fn k119(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun19::call(arg::<[Uint; 3]>(v, 0)); (i, u119(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u120(r: ethabi::Result<Vec<Uint>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e120(v: &[Val]) -> Vec<u8> { c1::functions::fun20::encode_input(arg::<Vec<Uint>>(v, 0)) }
fn d120(d: &[u8], t: &[Ty]) -> Out { u120(c1::functions::fun20::decode_output(d), t) }
fn k120(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun20::call(arg::<Vec<Uint>>(v, 0)); (i, u120(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u121(r: ethabi::Result<[Uint; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e121(v: &[Val]) -> Vec<u8> { c1::functions::fun21::encode_input(arg::<[Uint; 1]>(v, 0)) }
fn d121(d: &[u8], t: &[Ty]) -> Out { u121(c1::functions::fun21::decode_output(d), t) }
fn k121(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun21::call(arg::<[Uint; 1]>(v, 0)); (i, u121(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u122(r: ethabi::Result<[Uint; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e122(v: &[Val]) -> Vec<u8> { c1::functions::fun22::encode_input(arg::<[Uint; 2]>(v, 0)) }
fn d122(d: &[u8], t: &[Ty]) -> Out { u122(c1::functions::fun22::decode_output(d), t) }
fn k122(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun22::call(arg::<[Uint; 2]>(v, 0)); (i, u122(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u123(r: ethabi::Result<[Uint; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e123(v: &[Val]) -> Vec<u8> { c1::functions::fun23::encode_input(arg::<[Uint; 3]>(v, 0)) }
fn d123(d: &[u8], t: &[Ty]) -> Out { u123(c1::functions::fun23::decode_output(d), t) }
fn k123(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun23::call(arg::<[Uint; 3]>(v, 0)); (i, u123(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u124(r: ethabi::Result<Vec<Uint>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e124(v: &[Val]) -> Vec<u8> { c1::functions::fun24::encode_input(arg::<Vec<Uint>>(v, 0)) }
fn d124(d: &[u8], t: &[Ty]) -> Out { u124(c1::functions::fun24::decode_output(d), t) }
fn k124(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun24::call(arg::<Vec<Uint>>(v, 0)); (i, u124(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u125(r: ethabi::Result<[Uint; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e125(v: &[Val]) -> Vec<u8> { c1::functions::fun25::encode_input(arg::<[Uint; 1]>(v, 0)) }
fn d125(d: &[u8], t: &[Ty]) -> Out { u125(c1::functions::fun25::decode_output(d), t) }
fn k125(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun25::call(arg::<[Uint; 1]>(v, 0)); (i, u125(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u126(r: ethabi::Result<[Uint; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e126(v: &[Val]) -> Vec<u8> { c1::functions::fun26::encode_input(arg::<[Uint; 2]>(v, 0)) }
fn d126(d: &[u8], t: &[Ty]) -> Out { u126(c1::functions::fun26::decode_output(d), t) }
fn k126(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun26::call(arg::<[Uint; 2]>(v, 0)); (i, u126(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u127(r: ethabi::Result<[Uint; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e127(v: &[Val]) -> Vec<u8> { c1::functions::fun27::encode_input(arg::<[Uint; 3]>(v, 0)) }
fn d127(d: &[u8], t: &[Ty]) -> Out { u127(c1::functions::fun27::decode_output(d), t) }
fn k127(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun27::call(arg::<[Uint; 3]>(v, 0)); (i, u127(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u128(r: ethabi::Result<Vec<bool>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e128(v: &[Val]) -> Vec<u8> { c1::functions::fun28::encode_input(arg::<Vec<bool>>(v, 0)) }
fn d128(d: &[u8], t: &[Ty]) -> Out { u128(c1::functions::fun28::decode_output(d), t) }
fn k128(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun28::call(arg::<Vec<bool>>(v, 0)); (i, u128(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u129(r: ethabi::Result<[bool; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e129(v: &[Val]) -> Vec<u8> { c1::functions::fun29::encode_input(arg::<[bool; 1]>(v, 0)) }
fn d129(d: &[u8], t: &[Ty]) -> Out { u129(c1::functions::fun29::decode_output(d), t) }
fn k129(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun29::call(arg::<[bool; 1]>(v, 0)); (i, u129(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u130(r: ethabi::Result<[bool; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e130(v: &[Val]) -> Vec<u8> { c1::functions::fun30::encode_input(arg::<[bool; 2]>(v, 0)) }
fn d130(d: &[u8], t: &[Ty]) -> Out { u130(c1::functions::fun30::decode_output(d), t) }
fn k130(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun30::call(arg::<[bool; 2]>(v, 0)); (i, u130(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u131(r: ethabi::Result<[bool; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e131(v: &[Val]) -> Vec<u8> { c1::functions::fun31::encode_input(arg::<[bool; 3]>(v, 0)) }
fn d131(d: &[u8], t: &[Ty]) -> Out { u131(c1::functions::fun31::decode_output(d), t) }
fn k131(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun31::call(arg::<[bool; 3]>(v, 0)); (i, u131(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u132(r: ethabi::Result<Vec<String>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e132(v: &[Val]) -> Vec<u8> { c1::functions::fun32::encode_input(arg::<Vec<String>>(v, 0)) }
fn d132(d: &[u8], t: &[Ty]) -> Out { u132(c1::functions::fun32::decode_output(d), t) }
fn k132(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun32::call(arg::<Vec<String>>(v, 0)); (i, u132(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u133(r: ethabi::Result<[String; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e133(v: &[Val]) -> Vec<u8> { c1::functions::fun33::encode_input(arg::<[String; 1]>(v, 0)) }
fn d133(d: &[u8], t: &[Ty]) -> Out { u133(c1::functions::fun33::decode_output(d), t) }
fn k133(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun33::call(arg::<[String; 1]>(v, 0)); (i, u133(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u134(r: ethabi::Result<[String; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e134(v: &[Val]) -> Vec<u8> { c1::functions::fun34::encode_input(arg::<[String; 2]>(v, 0)) }
fn d134(d: &[u8], t: &[Ty]) -> Out { u134(c1::functions::fun34::decode_output(d), t) }
fn k134(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun34::call(arg::<[String; 2]>(v, 0)); (i, u134(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u135(r: ethabi::Result<[String; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e135(v: &[Val]) -> Vec<u8> { c1::functions::fun35::encode_input(arg::<[String; 3]>(v, 0)) }
fn d135(d: &[u8], t: &[Ty]) -> Out { u135(c1::functions::fun35::decode_output(d), t) }
fn k135(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c1::functions::fun35::call(arg::<[String; 3]>(v, 0)); (i, u135(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u136(r: ethabi::Result<Vec<Vec<Address>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e136(v: &[Val]) -> Vec<u8> { c2::functions::fun0::encode_input(arg::<Vec<Vec<Address>>>(v, 0)) }
fn d136(d: &[u8], t: &[Ty]) -> Out { u136(c2::functions::fun0::decode_output(d), t) }
fn k136(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun0::call(arg::<Vec<Vec<Address>>>(v, 0)); (i, u136(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u137(r: ethabi::Result<[Vec<Address>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e137(v: &[Val]) -> Vec<u8> { c2::functions::fun1::encode_input(arg::<[Vec<Address>; 3]>(v, 0)) }
fn d137(d: &[u8], t: &[Ty]) -> Out { u137(c2::functions::fun1::decode_output(d), t) }
fn k137(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun1::call(arg::<[Vec<Address>; 3]>(v, 0)); (i, u137(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u138(r: ethabi::Result<Vec<[Address; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e138(v: &[Val]) -> Vec<u8> { c2::functions::fun2::encode_input(arg::<Vec<[Address; 2]>>(v, 0)) }
fn d138(d: &[u8], t: &[Ty]) -> Out { u138(c2::functions::fun2::decode_output(d), t) }
fn k138(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun2::call(arg::<Vec<[Address; 2]>>(v, 0)); (i, u138(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u139(r: ethabi::Result<[[Address; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e139(v: &[Val]) -> Vec<u8> { c2::functions::fun3::encode_input(arg::<[[Address; 2]; 3]>(v, 0)) }
fn d139(d: &[u8], t: &[Ty]) -> Out { u139(c2::functions::fun3::decode_output(d), t) }
fn k139(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun3::call(arg::<[[Address; 2]; 3]>(v, 0)); (i, u139(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u140(r: ethabi::Result<Vec<[Address; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e140(v: &[Val]) -> Vec<u8> { c2::functions::fun4::encode_input(arg::<Vec<[Address; 1]>>(v, 0)) }
fn d140(d: &[u8], t: &[Ty]) -> Out { u140(c2::functions::fun4::decode_output(d), t) }
fn k140(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun4::call(arg::<Vec<[Address; 1]>>(v, 0)); (i, u140(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u141(r: ethabi::Result<[[Address; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e141(v: &[Val]) -> Vec<u8> { c2::functions::fun5::encode_input(arg::<[[Address; 1]; 3]>(v, 0)) }
fn d141(d: &[u8], t: &[Ty]) -> Out { u141(c2::functions::fun5::decode_output(d), t) }
fn k141(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun5::call(arg::<[[Address; 1]; 3]>(v, 0)); (i, u141(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u142(r: ethabi::Result<Vec<Vec<Vec<u8>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e142(v: &[Val]) -> Vec<u8> { c2::functions::fun6::encode_input(arg::<Vec<Vec<Vec<u8>>>>(v, 0)) }
fn d142(d: &[u8], t: &[Ty]) -> Out { u142(c2::functions::fun6::decode_output(d), t) }
fn k142(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun6::call(arg::<Vec<Vec<Vec<u8>>>>(v, 0)); (i, u142(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u143(r: ethabi::Result<[Vec<Vec<u8>>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e143(v: &[Val]) -> Vec<u8> { c2::functions::fun7::encode_input(arg::<[Vec<Vec<u8>>; 3]>(v, 0)) }
fn d143(d: &[u8], t: &[Ty]) -> Out { u143(c2::functions::fun7::decode_output(d), t) }
fn k143(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun7::call(arg::<[Vec<Vec<u8>>; 3]>(v, 0)); (i, u143(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u144(r: ethabi::Result<Vec<[Vec<u8>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e144(v: &[Val]) -> Vec<u8> { c2::functions::fun8::encode_input(arg::<Vec<[Vec<u8>; 2]>>(v, 0)) }
fn d144(d: &[u8], t: &[Ty]) -> Out { u144(c2::functions::fun8::decode_output(d), t) }
fn k144(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun8::call(arg::<Vec<[Vec<u8>; 2]>>(v, 0)); (i, u144(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u145(r: ethabi::Result<[[Vec<u8>; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e145(v: &[Val]) -> Vec<u8> { c2::functions::fun9::encode_input(arg::<[[Vec<u8>; 2]; 3]>(v, 0)) }
fn d145(d: &[u8], t: &[Ty]) -> Out { u145(c2::functions::fun9::decode_output(d), t) }
fn k145(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun9::call(arg::<[[Vec<u8>; 2]; 3]>(v, 0)); (i, u145(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u146(r: ethabi::Result<Vec<[Vec<u8>; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e146(v: &[Val]) -> Vec<u8> { c2::functions::fun10::encode_input(arg::<Vec<[Vec<u8>; 1]>>(v, 0)) }
fn d146(d: &[u8], t: &[Ty]) -> Out { u146(c2::functions::fun10::decode_output(d), t) }
fn k146(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun10::call(arg::<Vec<[Vec<u8>; 1]>>(v, 0)); (i, u146(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u147(r: ethabi::Result<[[Vec<u8>; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e147(v: &[Val]) -> Vec<u8> { c2::functions::fun11::encode_input(arg::<[[Vec<u8>; 1]; 3]>(v, 0)) }
fn d147(d: &[u8], t: &[Ty]) -> Out { u147(c2::functions::fun11::decode_output(d), t) }
fn k147(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun11::call(arg::<[[Vec<u8>; 1]; 3]>(v, 0)); (i, u147(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u148(r: ethabi::Result<Vec<Vec<Hash>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e148(v: &[Val]) -> Vec<u8> { c2::functions::fun12::encode_input(arg::<Vec<Vec<Hash>>>(v, 0)) }
fn d148(d: &[u8], t: &[Ty]) -> Out { u148(c2::functions::fun12::decode_output(d), t) }
fn k148(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun12::call(arg::<Vec<Vec<Hash>>>(v, 0)); (i, u148(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u149(r: ethabi::Result<[Vec<Hash>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e149(v: &[Val]) -> Vec<u8> { c2::functions::fun13::encode_input(arg::<[Vec<Hash>; 3]>(v, 0)) }
fn d149(d: &[u8], t: &[Ty]) -> Out { u149(c2::functions::fun13::decode_output(d), t) }
fn k149(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun13::call(arg::<[Vec<Hash>; 3]>(v, 0)); (i, u149(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u150(r: ethabi::Result<Vec<[Hash; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e150(v: &[Val]) -> Vec<u8> { c2::functions::fun14::encode_input(arg::<Vec<[Hash; 2]>>(v, 0)) }
fn d150(d: &[u8], t: &[Ty]) -> Out { u150(c2::functions::fun14::decode_output(d), t) }
fn k150(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun14::call(arg::<Vec<[Hash; 2]>>(v, 0)); (i, u150(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u151(r: ethabi::Result<[[Hash; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e151(v: &[Val]) -> Vec<u8> { c2::functions::fun15::encode_input(arg::<[[Hash; 2]; 3]>(v, 0)) }
fn d151(d: &[u8], t: &[Ty]) -> Out { u151(c2::functions::fun15::decode_output(d), t) }
fn k151(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun15::call(arg::<[[Hash; 2]; 3]>(v, 0)); (i, u151(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u152(r: ethabi::Result<Vec<[Hash; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e152(v: &[Val]) -> Vec<u8> { c2::functions::fun16::encode_input(arg::<Vec<[Hash; 1]>>(v, 0)) }
fn d152(d: &[u8], t: &[Ty]) -> Out { u152(c2::functions::fun16::decode_output(d), t) }
fn k152(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun16::call(arg::<Vec<[Hash; 1]>>(v, 0)); (i, u152(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u153(r: ethabi::Result<[[Hash; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e153(v: &[Val]) -> Vec<u8> { c2::functions::fun17::encode_input(arg::<[[Hash; 1]; 3]>(v, 0)) }
fn d153(d: &[u8], t: &[Ty]) -> Out { u153(c2::functions::fun17::decode_output(d), t) }
fn k153(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun17::call(arg::<[[Hash; 1]; 3]>(v, 0)); (i, u153(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u154(r: ethabi::Result<Vec<Vec<[u8; 4]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e154(v: &[Val]) -> Vec<u8> { c2::functions::fun18::encode_input(arg::<Vec<Vec<[u8; 4]>>>(v, 0)) }
fn d154(d: &[u8], t: &[Ty]) -> Out { u154(c2::functions::fun18::decode_output(d), t) }
fn k154(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun18::call(arg::<Vec<Vec<[u8; 4]>>>(v, 0)); (i, u154(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u155(r: ethabi::Result<[Vec<[u8; 4]>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e155(v: &[Val]) -> Vec<u8> { c2::functions::fun19::encode_input(arg::<[Vec<[u8; 4]>; 3]>(v, 0)) }
fn d155(d: &[u8], t: &[Ty]) -> Out { u155(c2::functions::fun19::decode_output(d), t) }
fn k155(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun19::call(arg::<[Vec<[u8; 4]>; 3]>(v, 0)); (i, u155(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u156(r: ethabi::Result<Vec<[[u8; 4]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e156(v: &[Val]) -> Vec<u8> { c2::functions::fun20::encode_input(arg::<Vec<[[u8; 4]; 2]>>(v, 0)) }
fn d156(d: &[u8], t: &[Ty]) -> Out { u156(c2::functions::fun20::decode_output(d), t) }
fn k156(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun20::call(arg::<Vec<[[u8; 4]; 2]>>(v, 0)); (i, u156(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u157(r: ethabi::Result<[[[u8; 4]; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e157(v: &[Val]) -> Vec<u8> { c2::functions::fun21::encode_input(arg::<[[[u8; 4]; 2]; 3]>(v, 0)) }
fn d157(d: &[u8], t: &[Ty]) -> Out { u157(c2::functions::fun21::decode_output(d), t) }
fn k157(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun21::call(arg::<[[[u8; 4]; 2]; 3]>(v, 0)); (i, u157(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u158(r: ethabi::Result<Vec<[[u8; 4]; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e158(v: &[Val]) -> Vec<u8> { c2::functions::fun22::encode_input(arg::<Vec<[[u8; 4]; 1]>>(v, 0)) }
fn d158(d: &[u8], t: &[Ty]) -> Out { u158(c2::functions::fun22::decode_output(d), t) }
fn k158(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun22::call(arg::<Vec<[[u8; 4]; 1]>>(v, 0)); (i, u158(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u159(r: ethabi::Result<[[[u8; 4]; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e159(v: &[Val]) -> Vec<u8> { c2::functions::fun23::encode_input(arg::<[[[u8; 4]; 1]; 3]>(v, 0)) }
fn d159(d: &[u8], t: &[Ty]) -> Out { u159(c2::functions::fun23::decode_output(d), t) }
fn k159(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun23::call(arg::<[[[u8; 4]; 1]; 3]>(v, 0)); (i, u159(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u160(r: ethabi::Result<Vec<Vec<Uint>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e160(v: &[Val]) -> Vec<u8> { c2::functions::fun24::encode_input(arg::<Vec<Vec<Uint>>>(v, 0)) }
fn d160(d: &[u8], t: &[Ty]) -> Out { u160(c2::functions::fun24::decode_output(d), t) }
fn k160(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun24::call(arg::<Vec<Vec<Uint>>>(v, 0)); (i, u160(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u161(r: ethabi::Result<[Vec<Uint>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e161(v: &[Val]) -> Vec<u8> { c2::functions::fun25::encode_input(arg::<[Vec<Uint>; 3]>(v, 0)) }
fn d161(d: &[u8], t: &[Ty]) -> Out { u161(c2::functions::fun25::decode_output(d), t) }
fn k161(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun25::call(arg::<[Vec<Uint>; 3]>(v, 0)); (i, u161(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u162(r: ethabi::Result<Vec<[Uint; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e162(v: &[Val]) -> Vec<u8> { c2::functions::fun26::encode_input(arg::<Vec<[Uint; 2]>>(v, 0)) }
fn d162(d: &[u8], t: &[Ty]) -> Out { u162(c2::functions::fun26::decode_output(d), t) }
fn k162(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun26::call(arg::<Vec<[Uint; 2]>>(v, 0)); (i, u162(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u163(r: ethabi::Result<[[Uint; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e163(v: &[Val]) -> Vec<u8> { c2::functions::fun27::encode_input(arg::<[[Uint; 2]; 3]>(v, 0)) }
fn d163(d: &[u8], t: &[Ty]) -> Out { u163(c2::functions::fun27::decode_output(d), t) }
fn k163(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun27::call(arg::<[[Uint; 2]; 3]>(v, 0)); (i, u163(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u164(r: ethabi::Result<Vec<[Uint; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e164(v: &[Val]) -> Vec<u8> { c2::functions::fun28::encode_input(arg::<Vec<[Uint; 1]>>(v, 0)) }
fn d164(d: &[u8], t: &[Ty]) -> Out { u164(c2::functions::fun28::decode_output(d), t) }
fn k164(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun28::call(arg::<Vec<[Uint; 1]>>(v, 0)); (i, u164(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u165(r: ethabi::Result<[[Uint; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e165(v: &[Val]) -> Vec<u8> { c2::functions::fun29::encode_input(arg::<[[Uint; 1]; 3]>(v, 0)) }
fn d165(d: &[u8], t: &[Ty]) -> Out { u165(c2::functions::fun29::decode_output(d), t) }
fn k165(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun29::call(arg::<[[Uint; 1]; 3]>(v, 0)); (i, u165(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u166(r: ethabi::Result<Vec<Vec<Uint>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e166(v: &[Val]) -> Vec<u8> { c2::functions::fun30::encode_input(arg::<Vec<Vec<Uint>>>(v, 0)) }
fn d166(d: &[u8], t: &[Ty]) -> Out { u166(c2::functions::fun30::decode_output(d), t) }
fn k166(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun30::call(arg::<Vec<Vec<Uint>>>(v, 0)); (i, u166(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u167(r: ethabi::Result<[Vec<Uint>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e167(v: &[Val]) -> Vec<u8> { c2::functions::fun31::encode_input(arg::<[Vec<Uint>; 3]>(v, 0)) }
fn d167(d: &[u8], t: &[Ty]) -> Out { u167(c2::functions::fun31::decode_output(d), t) }
fn k167(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun31::call(arg::<[Vec<Uint>; 3]>(v, 0)); (i, u167(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u168(r: ethabi::Result<Vec<[Uint; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e168(v: &[Val]) -> Vec<u8> { c2::functions::fun32::encode_input(arg::<Vec<[Uint; 2]>>(v, 0)) }
fn d168(d: &[u8], t: &[Ty]) -> Out { u168(c2::functions::fun32::decode_output(d), t) }
fn k168(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun32::call(arg::<Vec<[Uint; 2]>>(v, 0)); (i, u168(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u169(r: ethabi::Result<[[Uint; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e169(v: &[Val]) -> Vec<u8> { c2::functions::fun33::encode_input(arg::<[[Uint; 2]; 3]>(v, 0)) }
fn d169(d: &[u8], t: &[Ty]) -> Out { u169(c2::functions::fun33::decode_output(d), t) }
fn k169(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun33::call(arg::<[[Uint; 2]; 3]>(v, 0)); (i, u169(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u170(r: ethabi::Result<Vec<[Uint; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e170(v: &[Val]) -> Vec<u8> { c2::functions::fun34::encode_input(arg::<Vec<[Uint; 1]>>(v, 0)) }
fn d170(d: &[u8], t: &[Ty]) -> Out { u170(c2::functions::fun34::decode_output(d), t) }
fn k170(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun34::call(arg::<Vec<[Uint; 1]>>(v, 0)); (i, u170(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u171(r: ethabi::Result<[[Uint; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e171(v: &[Val]) -> Vec<u8> { c2::functions::fun35::encode_input(arg::<[[Uint; 1]; 3]>(v, 0)) }
fn d171(d: &[u8], t: &[Ty]) -> Out { u171(c2::functions::fun35::decode_output(d), t) }
fn k171(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun35::call(arg::<[[Uint; 1]; 3]>(v, 0)); (i, u171(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u172(r: ethabi::Result<Vec<Vec<Uint>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e172(v: &[Val]) -> Vec<u8> { c2::functions::fun36::encode_input(arg::<Vec<Vec<Uint>>>(v, 0)) }
fn d172(d: &[u8], t: &[Ty]) -> Out { u172(c2::functions::fun36::decode_output(d), t) }
fn k172(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun36::call(arg::<Vec<Vec<Uint>>>(v, 0)); (i, u172(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u173(r: ethabi::Result<[Vec<Uint>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e173(v: &[Val]) -> Vec<u8> { c2::functions::fun37::encode_input(arg::<[Vec<Uint>; 3]>(v, 0)) }
fn d173(d: &[u8], t: &[Ty]) -> Out { u173(c2::functions::fun37::decode_output(d), t) }
fn k173(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun37::call(arg::<[Vec<Uint>; 3]>(v, 0)); (i, u173(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u174(r: ethabi::Result<Vec<[Uint; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e174(v: &[Val]) -> Vec<u8> { c2::functions::fun38::encode_input(arg::<Vec<[Uint; 2]>>(v, 0)) }
fn d174(d: &[u8], t: &[Ty]) -> Out { u174(c2::functions::fun38::decode_output(d), t) }
fn k174(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun38::call(arg::<Vec<[Uint; 2]>>(v, 0)); (i, u174(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u175(r: ethabi::Result<[[Uint; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e175(v: &[Val]) -> Vec<u8> { c2::functions::fun39::encode_input(arg::<[[Uint; 2]; 3]>(v, 0)) }
fn d175(d: &[u8], t: &[Ty]) -> Out { u175(c2::functions::fun39::decode_output(d), t) }
fn k175(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun39::call(arg::<[[Uint; 2]; 3]>(v, 0)); (i, u175(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u176(r: ethabi::Result<Vec<[Uint; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e176(v: &[Val]) -> Vec<u8> { c2::functions::fun40::encode_input(arg::<Vec<[Uint; 1]>>(v, 0)) }
fn d176(d: &[u8], t: &[Ty]) -> Out { u176(c2::functions::fun40::decode_output(d), t) }
fn k176(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun40::call(arg::<Vec<[Uint; 1]>>(v, 0)); (i, u176(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u177(r: ethabi::Result<[[Uint; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e177(v: &[Val]) -> Vec<u8> { c2::functions::fun41::encode_input(arg::<[[Uint; 1]; 3]>(v, 0)) }
fn d177(d: &[u8], t: &[Ty]) -> Out { u177(c2::functions::fun41::decode_output(d), t) }
fn k177(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun41::call(arg::<[[Uint; 1]; 3]>(v, 0)); (i, u177(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u178(r: ethabi::Result<Vec<Vec<bool>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e178(v: &[Val]) -> Vec<u8> { c2::functions::fun42::encode_input(arg::<Vec<Vec<bool>>>(v, 0)) }
fn d178(d: &[u8], t: &[Ty]) -> Out { u178(c2::functions::fun42::decode_output(d), t) }
fn k178(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun42::call(arg::<Vec<Vec<bool>>>(v, 0)); (i, u178(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u179(r: ethabi::Result<[Vec<bool>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e179(v: &[Val]) -> Vec<u8> { c2::functions::fun43::encode_input(arg::<[Vec<bool>; 3]>(v, 0)) }
fn d179(d: &[u8], t: &[Ty]) -> Out { u179(c2::functions::fun43::decode_output(d), t) }
fn k179(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun43::call(arg::<[Vec<bool>; 3]>(v, 0)); (i, u179(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u180(r: ethabi::Result<Vec<[bool; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e180(v: &[Val]) -> Vec<u8> { c2::functions::fun44::encode_input(arg::<Vec<[bool; 2]>>(v, 0)) }
fn d180(d: &[u8], t: &[Ty]) -> Out { u180(c2::functions::fun44::decode_output(d), t) }
fn k180(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun44::call(arg::<Vec<[bool; 2]>>(v, 0)); (i, u180(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u181(r: ethabi::Result<[[bool; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e181(v: &[Val]) -> Vec<u8> { c2::functions::fun45::encode_input(arg::<[[bool; 2]; 3]>(v, 0)) }
fn d181(d: &[u8], t: &[Ty]) -> Out { u181(c2::functions::fun45::decode_output(d), t) }
fn k181(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun45::call(arg::<[[bool; 2]; 3]>(v, 0)); (i, u181(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u182(r: ethabi::Result<Vec<[bool; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e182(v: &[Val]) -> Vec<u8> { c2::functions::fun46::encode_input(arg::<Vec<[bool; 1]>>(v, 0)) }
fn d182(d: &[u8], t: &[Ty]) -> Out { u182(c2::functions::fun46::decode_output(d), t) }
fn k182(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun46::call(arg::<Vec<[bool; 1]>>(v, 0)); (i, u182(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u183(r: ethabi::Result<[[bool; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e183(v: &[Val]) -> Vec<u8> { c2::functions::fun47::encode_input(arg::<[[bool; 1]; 3]>(v, 0)) }
fn d183(d: &[u8], t: &[Ty]) -> Out { u183(c2::functions::fun47::decode_output(d), t) }
fn k183(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun47::call(arg::<[[bool; 1]; 3]>(v, 0)); (i, u183(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u184(r: ethabi::Result<Vec<Vec<String>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e184(v: &[Val]) -> Vec<u8> { c2::functions::fun48::encode_input(arg::<Vec<Vec<String>>>(v, 0)) }
fn d184(d: &[u8], t: &[Ty]) -> Out { u184(c2::functions::fun48::decode_output(d), t) }
fn k184(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun48::call(arg::<Vec<Vec<String>>>(v, 0)); (i, u184(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u185(r: ethabi::Result<[Vec<String>; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e185(v: &[Val]) -> Vec<u8> { c2::functions::fun49::encode_input(arg::<[Vec<String>; 3]>(v, 0)) }
fn d185(d: &[u8], t: &[Ty]) -> Out { u185(c2::functions::fun49::decode_output(d), t) }
fn k185(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun49::call(arg::<[Vec<String>; 3]>(v, 0)); (i, u185(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u186(r: ethabi::Result<Vec<[String; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e186(v: &[Val]) -> Vec<u8> { c2::functions::fun50::encode_input(arg::<Vec<[String; 2]>>(v, 0)) }
fn d186(d: &[u8], t: &[Ty]) -> Out { u186(c2::functions::fun50::decode_output(d), t) }
fn k186(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun50::call(arg::<Vec<[String; 2]>>(v, 0)); (i, u186(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u187(r: ethabi::Result<[[String; 2]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e187(v: &[Val]) -> Vec<u8> { c2::functions::fun51::encode_input(arg::<[[String; 2]; 3]>(v, 0)) }
fn d187(d: &[u8], t: &[Ty]) -> Out { u187(c2::functions::fun51::decode_output(d), t) }
fn k187(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun51::call(arg::<[[String; 2]; 3]>(v, 0)); (i, u187(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u188(r: ethabi::Result<Vec<[String; 1]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e188(v: &[Val]) -> Vec<u8> { c2::functions::fun52::encode_input(arg::<Vec<[String; 1]>>(v, 0)) }
fn d188(d: &[u8], t: &[Ty]) -> Out { u188(c2::functions::fun52::decode_output(d), t) }
fn k188(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun52::call(arg::<Vec<[String; 1]>>(v, 0)); (i, u188(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u189(r: ethabi::Result<[[String; 1]; 3]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e189(v: &[Val]) -> Vec<u8> { c2::functions::fun53::encode_input(arg::<[[String; 1]; 3]>(v, 0)) }
fn d189(d: &[u8], t: &[Ty]) -> Out { u189(c2::functions::fun53::decode_output(d), t) }
fn k189(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c2::functions::fun53::call(arg::<[[String; 1]; 3]>(v, 0)); (i, u189(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u190(r: ethabi::Result<Vec<Vec<Vec<Uint>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e190(v: &[Val]) -> Vec<u8> { c3::functions::fun0::encode_input(arg::<Vec<Vec<Vec<Uint>>>>(v, 0)) }
fn d190(d: &[u8], t: &[Ty]) -> Out { u190(c3::functions::fun0::decode_output(d), t) }
fn k190(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun0::call(arg::<Vec<Vec<Vec<Uint>>>>(v, 0)); (i, u190(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u191(r: ethabi::Result<[Vec<Vec<Uint>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e191(v: &[Val]) -> Vec<u8> { c3::functions::fun1::encode_input(arg::<[Vec<Vec<Uint>>; 2]>(v, 0)) }
fn d191(d: &[u8], t: &[Ty]) -> Out { u191(c3::functions::fun1::decode_output(d), t) }
fn k191(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun1::call(arg::<[Vec<Vec<Uint>>; 2]>(v, 0)); (i, u191(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u192(r: ethabi::Result<Vec<[Vec<Uint>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e192(v: &[Val]) -> Vec<u8> { c3::functions::fun2::encode_input(arg::<Vec<[Vec<Uint>; 2]>>(v, 0)) }
fn d192(d: &[u8], t: &[Ty]) -> Out { u192(c3::functions::fun2::decode_output(d), t) }
fn k192(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun2::call(arg::<Vec<[Vec<Uint>; 2]>>(v, 0)); (i, u192(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u193(r: ethabi::Result<[[Vec<Uint>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e193(v: &[Val]) -> Vec<u8> { c3::functions::fun3::encode_input(arg::<[[Vec<Uint>; 2]; 2]>(v, 0)) }
fn d193(d: &[u8], t: &[Ty]) -> Out { u193(c3::functions::fun3::decode_output(d), t) }
fn k193(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun3::call(arg::<[[Vec<Uint>; 2]; 2]>(v, 0)); (i, u193(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u194(r: ethabi::Result<Vec<Vec<[Uint; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e194(v: &[Val]) -> Vec<u8> { c3::functions::fun4::encode_input(arg::<Vec<Vec<[Uint; 2]>>>(v, 0)) }
fn d194(d: &[u8], t: &[Ty]) -> Out { u194(c3::functions::fun4::decode_output(d), t) }
fn k194(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun4::call(arg::<Vec<Vec<[Uint; 2]>>>(v, 0)); (i, u194(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u195(r: ethabi::Result<[Vec<[Uint; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e195(v: &[Val]) -> Vec<u8> { c3::functions::fun5::encode_input(arg::<[Vec<[Uint; 2]>; 2]>(v, 0)) }
fn d195(d: &[u8], t: &[Ty]) -> Out { u195(c3::functions::fun5::decode_output(d), t) }
fn k195(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun5::call(arg::<[Vec<[Uint; 2]>; 2]>(v, 0)); (i, u195(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u196(r: ethabi::Result<Vec<[[Uint; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e196(v: &[Val]) -> Vec<u8> { c3::functions::fun6::encode_input(arg::<Vec<[[Uint; 2]; 2]>>(v, 0)) }
fn d196(d: &[u8], t: &[Ty]) -> Out { u196(c3::functions::fun6::decode_output(d), t) }
fn k196(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun6::call(arg::<Vec<[[Uint; 2]; 2]>>(v, 0)); (i, u196(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u197(r: ethabi::Result<[[[Uint; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e197(v: &[Val]) -> Vec<u8> { c3::functions::fun7::encode_input(arg::<[[[Uint; 2]; 2]; 2]>(v, 0)) }
fn d197(d: &[u8], t: &[Ty]) -> Out { u197(c3::functions::fun7::decode_output(d), t) }
fn k197(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun7::call(arg::<[[[Uint; 2]; 2]; 2]>(v, 0)); (i, u197(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u198(r: ethabi::Result<Vec<Vec<Vec<Vec<u8>>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e198(v: &[Val]) -> Vec<u8> { c3::functions::fun8::encode_input(arg::<Vec<Vec<Vec<Vec<u8>>>>>(v, 0)) }
fn d198(d: &[u8], t: &[Ty]) -> Out { u198(c3::functions::fun8::decode_output(d), t) }
fn k198(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun8::call(arg::<Vec<Vec<Vec<Vec<u8>>>>>(v, 0)); (i, u198(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u199(r: ethabi::Result<[Vec<Vec<Vec<u8>>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e199(v: &[Val]) -> Vec<u8> { c3::functions::fun9::encode_input(arg::<[Vec<Vec<Vec<u8>>>; 2]>(v, 0)) }
fn d199(d: &[u8], t: &[Ty]) -> Out { u199(c3::functions::fun9::decode_output(d), t) }
fn k199(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun9::call(arg::<[Vec<Vec<Vec<u8>>>; 2]>(v, 0)); (i, u199(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u200(r: ethabi::Result<Vec<[Vec<Vec<u8>>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e200(v: &[Val]) -> Vec<u8> { c3::functions::fun10::encode_input(arg::<Vec<[Vec<Vec<u8>>; 2]>>(v, 0)) }
fn d200(d: &[u8], t: &[Ty]) -> Out { u200(c3::functions::fun10::decode_output(d), t) }
fn k200(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun10::call(arg::<Vec<[Vec<Vec<u8>>; 2]>>(v, 0)); (i, u200(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u201(r: ethabi::Result<[[Vec<Vec<u8>>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e201(v: &[Val]) -> Vec<u8> { c3::functions::fun11::encode_input(arg::<[[Vec<Vec<u8>>; 2]; 2]>(v, 0)) }
fn d201(d: &[u8], t: &[Ty]) -> Out { u201(c3::functions::fun11::decode_output(d), t) }
fn k201(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun11::call(arg::<[[Vec<Vec<u8>>; 2]; 2]>(v, 0)); (i, u201(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u202(r: ethabi::Result<Vec<Vec<[Vec<u8>; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e202(v: &[Val]) -> Vec<u8> { c3::functions::fun12::encode_input(arg::<Vec<Vec<[Vec<u8>; 2]>>>(v, 0)) }
fn d202(d: &[u8], t: &[Ty]) -> Out { u202(c3::functions::fun12::decode_output(d), t) }
fn k202(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun12::call(arg::<Vec<Vec<[Vec<u8>; 2]>>>(v, 0)); (i, u202(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u203(r: ethabi::Result<[Vec<[Vec<u8>; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e203(v: &[Val]) -> Vec<u8> { c3::functions::fun13::encode_input(arg::<[Vec<[Vec<u8>; 2]>; 2]>(v, 0)) }
fn d203(d: &[u8], t: &[Ty]) -> Out { u203(c3::functions::fun13::decode_output(d), t) }
fn k203(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun13::call(arg::<[Vec<[Vec<u8>; 2]>; 2]>(v, 0)); (i, u203(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u204(r: ethabi::Result<Vec<[[Vec<u8>; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e204(v: &[Val]) -> Vec<u8> { c3::functions::fun14::encode_input(arg::<Vec<[[Vec<u8>; 2]; 2]>>(v, 0)) }
fn d204(d: &[u8], t: &[Ty]) -> Out { u204(c3::functions::fun14::decode_output(d), t) }
fn k204(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun14::call(arg::<Vec<[[Vec<u8>; 2]; 2]>>(v, 0)); (i, u204(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u205(r: ethabi::Result<[[[Vec<u8>; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e205(v: &[Val]) -> Vec<u8> { c3::functions::fun15::encode_input(arg::<[[[Vec<u8>; 2]; 2]; 2]>(v, 0)) }
fn d205(d: &[u8], t: &[Ty]) -> Out { u205(c3::functions::fun15::decode_output(d), t) }
fn k205(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun15::call(arg::<[[[Vec<u8>; 2]; 2]; 2]>(v, 0)); (i, u205(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u206(r: ethabi::Result<Vec<Vec<Vec<[u8; 4]>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e206(v: &[Val]) -> Vec<u8> { c3::functions::fun16::encode_input(arg::<Vec<Vec<Vec<[u8; 4]>>>>(v, 0)) }
fn d206(d: &[u8], t: &[Ty]) -> Out { u206(c3::functions::fun16::decode_output(d), t) }
fn k206(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun16::call(arg::<Vec<Vec<Vec<[u8; 4]>>>>(v, 0)); (i, u206(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u207(r: ethabi::Result<[Vec<Vec<[u8; 4]>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e207(v: &[Val]) -> Vec<u8> { c3::functions::fun17::encode_input(arg::<[Vec<Vec<[u8; 4]>>; 2]>(v, 0)) }
fn d207(d: &[u8], t: &[Ty]) -> Out { u207(c3::functions::fun17::decode_output(d), t) }
fn k207(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun17::call(arg::<[Vec<Vec<[u8; 4]>>; 2]>(v, 0)); (i, u207(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u208(r: ethabi::Result<Vec<[Vec<[u8; 4]>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e208(v: &[Val]) -> Vec<u8> { c3::functions::fun18::encode_input(arg::<Vec<[Vec<[u8; 4]>; 2]>>(v, 0)) }
fn d208(d: &[u8], t: &[Ty]) -> Out { u208(c3::functions::fun18::decode_output(d), t) }
fn k208(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun18::call(arg::<Vec<[Vec<[u8; 4]>; 2]>>(v, 0)); (i, u208(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u209(r: ethabi::Result<[[Vec<[u8; 4]>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e209(v: &[Val]) -> Vec<u8> { c3::functions::fun19::encode_input(arg::<[[Vec<[u8; 4]>; 2]; 2]>(v, 0)) }
fn d209(d: &[u8], t: &[Ty]) -> Out { u209(c3::functions::fun19::decode_output(d), t) }
fn k209(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun19::call(arg::<[[Vec<[u8; 4]>; 2]; 2]>(v, 0)); (i, u209(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u210(r: ethabi::Result<Vec<Vec<[[u8; 4]; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e210(v: &[Val]) -> Vec<u8> { c3::functions::fun20::encode_input(arg::<Vec<Vec<[[u8; 4]; 2]>>>(v, 0)) }
fn d210(d: &[u8], t: &[Ty]) -> Out { u210(c3::functions::fun20::decode_output(d), t) }
fn k210(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun20::call(arg::<Vec<Vec<[[u8; 4]; 2]>>>(v, 0)); (i, u210(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u211(r: ethabi::Result<[Vec<[[u8; 4]; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e211(v: &[Val]) -> Vec<u8> { c3::functions::fun21::encode_input(arg::<[Vec<[[u8; 4]; 2]>; 2]>(v, 0)) }
fn d211(d: &[u8], t: &[Ty]) -> Out { u211(c3::functions::fun21::decode_output(d), t) }
fn k211(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun21::call(arg::<[Vec<[[u8; 4]; 2]>; 2]>(v, 0)); (i, u211(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u212(r: ethabi::Result<Vec<[[[u8; 4]; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e212(v: &[Val]) -> Vec<u8> { c3::functions::fun22::encode_input(arg::<Vec<[[[u8; 4]; 2]; 2]>>(v, 0)) }
fn d212(d: &[u8], t: &[Ty]) -> Out { u212(c3::functions::fun22::decode_output(d), t) }
fn k212(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun22::call(arg::<Vec<[[[u8; 4]; 2]; 2]>>(v, 0)); (i, u212(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u213(r: ethabi::Result<[[[[u8; 4]; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e213(v: &[Val]) -> Vec<u8> { c3::functions::fun23::encode_input(arg::<[[[[u8; 4]; 2]; 2]; 2]>(v, 0)) }
fn d213(d: &[u8], t: &[Ty]) -> Out { u213(c3::functions::fun23::decode_output(d), t) }
fn k213(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun23::call(arg::<[[[[u8; 4]; 2]; 2]; 2]>(v, 0)); (i, u213(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u214(r: ethabi::Result<Vec<Vec<Vec<Hash>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e214(v: &[Val]) -> Vec<u8> { c3::functions::fun24::encode_input(arg::<Vec<Vec<Vec<Hash>>>>(v, 0)) }
fn d214(d: &[u8], t: &[Ty]) -> Out { u214(c3::functions::fun24::decode_output(d), t) }
fn k214(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun24::call(arg::<Vec<Vec<Vec<Hash>>>>(v, 0)); (i, u214(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u215(r: ethabi::Result<[Vec<Vec<Hash>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e215(v: &[Val]) -> Vec<u8> { c3::functions::fun25::encode_input(arg::<[Vec<Vec<Hash>>; 2]>(v, 0)) }
fn d215(d: &[u8], t: &[Ty]) -> Out { u215(c3::functions::fun25::decode_output(d), t) }
fn k215(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun25::call(arg::<[Vec<Vec<Hash>>; 2]>(v, 0)); (i, u215(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u216(r: ethabi::Result<Vec<[Vec<Hash>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e216(v: &[Val]) -> Vec<u8> { c3::functions::fun26::encode_input(arg::<Vec<[Vec<Hash>; 2]>>(v, 0)) }
fn d216(d: &[u8], t: &[Ty]) -> Out { u216(c3::functions::fun26::decode_output(d), t) }
fn k216(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun26::call(arg::<Vec<[Vec<Hash>; 2]>>(v, 0)); (i, u216(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u217(r: ethabi::Result<[[Vec<Hash>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e217(v: &[Val]) -> Vec<u8> { c3::functions::fun27::encode_input(arg::<[[Vec<Hash>; 2]; 2]>(v, 0)) }
fn d217(d: &[u8], t: &[Ty]) -> Out { u217(c3::functions::fun27::decode_output(d), t) }
fn k217(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun27::call(arg::<[[Vec<Hash>; 2]; 2]>(v, 0)); (i, u217(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u218(r: ethabi::Result<Vec<Vec<[Hash; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e218(v: &[Val]) -> Vec<u8> { c3::functions::fun28::encode_input(arg::<Vec<Vec<[Hash; 2]>>>(v, 0)) }
fn d218(d: &[u8], t: &[Ty]) -> Out { u218(c3::functions::fun28::decode_output(d), t) }
fn k218(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun28::call(arg::<Vec<Vec<[Hash; 2]>>>(v, 0)); (i, u218(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u219(r: ethabi::Result<[Vec<[Hash; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e219(v: &[Val]) -> Vec<u8> { c3::functions::fun29::encode_input(arg::<[Vec<[Hash; 2]>; 2]>(v, 0)) }
fn d219(d: &[u8], t: &[Ty]) -> Out { u219(c3::functions::fun29::decode_output(d), t) }
fn k219(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun29::call(arg::<[Vec<[Hash; 2]>; 2]>(v, 0)); (i, u219(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u220(r: ethabi::Result<Vec<[[Hash; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e220(v: &[Val]) -> Vec<u8> { c3::functions::fun30::encode_input(arg::<Vec<[[Hash; 2]; 2]>>(v, 0)) }
fn d220(d: &[u8], t: &[Ty]) -> Out { u220(c3::functions::fun30::decode_output(d), t) }
fn k220(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun30::call(arg::<Vec<[[Hash; 2]; 2]>>(v, 0)); (i, u220(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u221(r: ethabi::Result<[[[Hash; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e221(v: &[Val]) -> Vec<u8> { c3::functions::fun31::encode_input(arg::<[[[Hash; 2]; 2]; 2]>(v, 0)) }
fn d221(d: &[u8], t: &[Ty]) -> Out { u221(c3::functions::fun31::decode_output(d), t) }
fn k221(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun31::call(arg::<[[[Hash; 2]; 2]; 2]>(v, 0)); (i, u221(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u222(r: ethabi::Result<[Uint; 40]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e222(v: &[Val]) -> Vec<u8> { c3::functions::fun32::encode_input(arg::<[Uint; 40]>(v, 0)) }
fn d222(d: &[u8], t: &[Ty]) -> Out { u222(c3::functions::fun32::decode_output(d), t) }
fn k222(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun32::call(arg::<[Uint; 40]>(v, 0)); (i, u222(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u223(r: ethabi::Result<[Hash; 33]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e223(v: &[Val]) -> Vec<u8> { c3::functions::fun33::encode_input(arg::<[String; 33]>(v, 0)) }
fn d223(d: &[u8], t: &[Ty]) -> Out { u223(c3::functions::fun33::decode_output(d), t) }
fn k223(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c3::functions::fun33::call(arg::<[String; 33]>(v, 0)); (i, u223(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u224(r: ethabi::Result<(Address, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e224(v: &[Val]) -> Vec<u8> { c4::functions::fun0::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1)) }
fn d224(d: &[u8], t: &[Ty]) -> Out { u224(c4::functions::fun0::decode_output(d), t) }
fn k224(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun0::call(arg::<Address>(v, 0), arg::<Address>(v, 1)); (i, u224(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u225(r: ethabi::Result<(Vec<u8>, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e225(v: &[Val]) -> Vec<u8> { c4::functions::fun1::encode_input(arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d225(d: &[u8], t: &[Ty]) -> Out { u225(c4::functions::fun1::decode_output(d), t) }
fn k225(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun1::call(arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u225(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u226(r: ethabi::Result<(Hash, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e226(v: &[Val]) -> Vec<u8> { c4::functions::fun2::encode_input(arg::<Address>(v, 0), arg::<Hash>(v, 1)) }
fn d226(d: &[u8], t: &[Ty]) -> Out { u226(c4::functions::fun2::decode_output(d), t) }
fn k226(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun2::call(arg::<Address>(v, 0), arg::<Hash>(v, 1)); (i, u226(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u227(r: ethabi::Result<([u8; 4], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e227(v: &[Val]) -> Vec<u8> { c4::functions::fun3::encode_input(arg::<Address>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d227(d: &[u8], t: &[Ty]) -> Out { u227(c4::functions::fun3::decode_output(d), t) }
fn k227(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun3::call(arg::<Address>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u227(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u228(r: ethabi::Result<(Uint, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e228(v: &[Val]) -> Vec<u8> { c4::functions::fun4::encode_input(arg::<Address>(v, 0), arg::<Uint>(v, 1)) }
fn d228(d: &[u8], t: &[Ty]) -> Out { u228(c4::functions::fun4::decode_output(d), t) }
fn k228(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun4::call(arg::<Address>(v, 0), arg::<Uint>(v, 1)); (i, u228(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u229(r: ethabi::Result<(Uint, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e229(v: &[Val]) -> Vec<u8> { c4::functions::fun5::encode_input(arg::<Address>(v, 0), arg::<Uint>(v, 1)) }
fn d229(d: &[u8], t: &[Ty]) -> Out { u229(c4::functions::fun5::decode_output(d), t) }
fn k229(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun5::call(arg::<Address>(v, 0), arg::<Uint>(v, 1)); (i, u229(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u230(r: ethabi::Result<(bool, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e230(v: &[Val]) -> Vec<u8> { c4::functions::fun6::encode_input(arg::<Address>(v, 0), arg::<bool>(v, 1)) }
fn d230(d: &[u8], t: &[Ty]) -> Out { u230(c4::functions::fun6::decode_output(d), t) }
fn k230(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun6::call(arg::<Address>(v, 0), arg::<bool>(v, 1)); (i, u230(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u231(r: ethabi::Result<(String, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e231(v: &[Val]) -> Vec<u8> { c4::functions::fun7::encode_input(arg::<Address>(v, 0), arg::<String>(v, 1)) }
fn d231(d: &[u8], t: &[Ty]) -> Out { u231(c4::functions::fun7::decode_output(d), t) }
fn k231(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun7::call(arg::<Address>(v, 0), arg::<String>(v, 1)); (i, u231(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u232(r: ethabi::Result<(Vec<Uint>, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e232(v: &[Val]) -> Vec<u8> { c4::functions::fun8::encode_input(arg::<Address>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d232(d: &[u8], t: &[Ty]) -> Out { u232(c4::functions::fun8::decode_output(d), t) }
fn k232(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun8::call(arg::<Address>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u232(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u233(r: ethabi::Result<([Vec<u8>; 2], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e233(v: &[Val]) -> Vec<u8> { c4::functions::fun9::encode_input(arg::<Address>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d233(d: &[u8], t: &[Ty]) -> Out { u233(c4::functions::fun9::decode_output(d), t) }
fn k233(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun9::call(arg::<Address>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u233(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u234(r: ethabi::Result<(Address, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e234(v: &[Val]) -> Vec<u8> { c4::functions::fun10::encode_input(arg::<Vec<u8>>(v, 0), arg::<Address>(v, 1)) }
fn d234(d: &[u8], t: &[Ty]) -> Out { u234(c4::functions::fun10::decode_output(d), t) }
fn k234(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun10::call(arg::<Vec<u8>>(v, 0), arg::<Address>(v, 1)); (i, u234(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u235(r: ethabi::Result<(Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e235(v: &[Val]) -> Vec<u8> { c4::functions::fun11::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d235(d: &[u8], t: &[Ty]) -> Out { u235(c4::functions::fun11::decode_output(d), t) }
fn k235(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun11::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u235(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u236(r: ethabi::Result<(Hash, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e236(v: &[Val]) -> Vec<u8> { c4::functions::fun12::encode_input(arg::<Vec<u8>>(v, 0), arg::<Hash>(v, 1)) }
fn d236(d: &[u8], t: &[Ty]) -> Out { u236(c4::functions::fun12::decode_output(d), t) }
fn k236(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun12::call(arg::<Vec<u8>>(v, 0), arg::<Hash>(v, 1)); (i, u236(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u237(r: ethabi::Result<([u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e237(v: &[Val]) -> Vec<u8> { c4::functions::fun13::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d237(d: &[u8], t: &[Ty]) -> Out { u237(c4::functions::fun13::decode_output(d), t) }
fn k237(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun13::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u237(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u238(r: ethabi::Result<(Uint, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e238(v: &[Val]) -> Vec<u8> { c4::functions::fun14::encode_input(arg::<Vec<u8>>(v, 0), arg::<Uint>(v, 1)) }
fn d238(d: &[u8], t: &[Ty]) -> Out { u238(c4::functions::fun14::decode_output(d), t) }
fn k238(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun14::call(arg::<Vec<u8>>(v, 0), arg::<Uint>(v, 1)); (i, u238(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u239(r: ethabi::Result<(Uint, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e239(v: &[Val]) -> Vec<u8> { c4::functions::fun15::encode_input(arg::<Vec<u8>>(v, 0), arg::<Uint>(v, 1)) }
fn d239(d: &[u8], t: &[Ty]) -> Out { u239(c4::functions::fun15::decode_output(d), t) }
fn k239(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun15::call(arg::<Vec<u8>>(v, 0), arg::<Uint>(v, 1)); (i, u239(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u240(r: ethabi::Result<(bool, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e240(v: &[Val]) -> Vec<u8> { c4::functions::fun16::encode_input(arg::<Vec<u8>>(v, 0), arg::<bool>(v, 1)) }
fn d240(d: &[u8], t: &[Ty]) -> Out { u240(c4::functions::fun16::decode_output(d), t) }
fn k240(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun16::call(arg::<Vec<u8>>(v, 0), arg::<bool>(v, 1)); (i, u240(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u241(r: ethabi::Result<(String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e241(v: &[Val]) -> Vec<u8> { c4::functions::fun17::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1)) }
fn d241(d: &[u8], t: &[Ty]) -> Out { u241(c4::functions::fun17::decode_output(d), t) }
fn k241(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun17::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1)); (i, u241(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u242(r: ethabi::Result<(Vec<Uint>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e242(v: &[Val]) -> Vec<u8> { c4::functions::fun18::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d242(d: &[u8], t: &[Ty]) -> Out { u242(c4::functions::fun18::decode_output(d), t) }
fn k242(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun18::call(arg::<Vec<u8>>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u242(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u243(r: ethabi::Result<([Vec<u8>; 2], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e243(v: &[Val]) -> Vec<u8> { c4::functions::fun19::encode_input(arg::<Vec<u8>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d243(d: &[u8], t: &[Ty]) -> Out { u243(c4::functions::fun19::decode_output(d), t) }
fn k243(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun19::call(arg::<Vec<u8>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u243(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u244(r: ethabi::Result<(Address, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e244(v: &[Val]) -> Vec<u8> { c4::functions::fun20::encode_input(arg::<Hash>(v, 0), arg::<Address>(v, 1)) }
fn d244(d: &[u8], t: &[Ty]) -> Out { u244(c4::functions::fun20::decode_output(d), t) }
fn k244(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun20::call(arg::<Hash>(v, 0), arg::<Address>(v, 1)); (i, u244(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u245(r: ethabi::Result<(Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e245(v: &[Val]) -> Vec<u8> { c4::functions::fun21::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d245(d: &[u8], t: &[Ty]) -> Out { u245(c4::functions::fun21::decode_output(d), t) }
fn k245(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun21::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u245(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u246(r: ethabi::Result<(Hash, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e246(v: &[Val]) -> Vec<u8> { c4::functions::fun22::encode_input(arg::<Hash>(v, 0), arg::<Hash>(v, 1)) }
fn d246(d: &[u8], t: &[Ty]) -> Out { u246(c4::functions::fun22::decode_output(d), t) }
fn k246(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun22::call(arg::<Hash>(v, 0), arg::<Hash>(v, 1)); (i, u246(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u247(r: ethabi::Result<([u8; 4], Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e247(v: &[Val]) -> Vec<u8> { c4::functions::fun23::encode_input(arg::<Hash>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d247(d: &[u8], t: &[Ty]) -> Out { u247(c4::functions::fun23::decode_output(d), t) }
fn k247(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun23::call(arg::<Hash>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u247(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u248(r: ethabi::Result<(Uint, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e248(v: &[Val]) -> Vec<u8> { c4::functions::fun24::encode_input(arg::<Hash>(v, 0), arg::<Uint>(v, 1)) }
fn d248(d: &[u8], t: &[Ty]) -> Out { u248(c4::functions::fun24::decode_output(d), t) }
fn k248(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun24::call(arg::<Hash>(v, 0), arg::<Uint>(v, 1)); (i, u248(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u249(r: ethabi::Result<(Uint, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e249(v: &[Val]) -> Vec<u8> { c4::functions::fun25::encode_input(arg::<Hash>(v, 0), arg::<Uint>(v, 1)) }
fn d249(d: &[u8], t: &[Ty]) -> Out { u249(c4::functions::fun25::decode_output(d), t) }
fn k249(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun25::call(arg::<Hash>(v, 0), arg::<Uint>(v, 1)); (i, u249(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u250(r: ethabi::Result<(bool, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e250(v: &[Val]) -> Vec<u8> { c4::functions::fun26::encode_input(arg::<Hash>(v, 0), arg::<bool>(v, 1)) }
fn d250(d: &[u8], t: &[Ty]) -> Out { u250(c4::functions::fun26::decode_output(d), t) }
fn k250(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun26::call(arg::<Hash>(v, 0), arg::<bool>(v, 1)); (i, u250(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u251(r: ethabi::Result<(String, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e251(v: &[Val]) -> Vec<u8> { c4::functions::fun27::encode_input(arg::<Hash>(v, 0), arg::<String>(v, 1)) }
fn d251(d: &[u8], t: &[Ty]) -> Out { u251(c4::functions::fun27::decode_output(d), t) }
fn k251(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun27::call(arg::<Hash>(v, 0), arg::<String>(v, 1)); (i, u251(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u252(r: ethabi::Result<(Vec<Uint>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e252(v: &[Val]) -> Vec<u8> { c4::functions::fun28::encode_input(arg::<Hash>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d252(d: &[u8], t: &[Ty]) -> Out { u252(c4::functions::fun28::decode_output(d), t) }
fn k252(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun28::call(arg::<Hash>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u252(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u253(r: ethabi::Result<([Vec<u8>; 2], Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e253(v: &[Val]) -> Vec<u8> { c4::functions::fun29::encode_input(arg::<Hash>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d253(d: &[u8], t: &[Ty]) -> Out { u253(c4::functions::fun29::decode_output(d), t) }
fn k253(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun29::call(arg::<Hash>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u253(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u254(r: ethabi::Result<(Address, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e254(v: &[Val]) -> Vec<u8> { c4::functions::fun30::encode_input(arg::<[u8; 4]>(v, 0), arg::<Address>(v, 1)) }
fn d254(d: &[u8], t: &[Ty]) -> Out { u254(c4::functions::fun30::decode_output(d), t) }
fn k254(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun30::call(arg::<[u8; 4]>(v, 0), arg::<Address>(v, 1)); (i, u254(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u255(r: ethabi::Result<(Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e255(v: &[Val]) -> Vec<u8> { c4::functions::fun31::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d255(d: &[u8], t: &[Ty]) -> Out { u255(c4::functions::fun31::decode_output(d), t) }
fn k255(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun31::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u255(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u256(r: ethabi::Result<(Hash, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e256(v: &[Val]) -> Vec<u8> { c4::functions::fun32::encode_input(arg::<[u8; 4]>(v, 0), arg::<Hash>(v, 1)) }
fn d256(d: &[u8], t: &[Ty]) -> Out { u256(c4::functions::fun32::decode_output(d), t) }
fn k256(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun32::call(arg::<[u8; 4]>(v, 0), arg::<Hash>(v, 1)); (i, u256(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u257(r: ethabi::Result<([u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e257(v: &[Val]) -> Vec<u8> { c4::functions::fun33::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d257(d: &[u8], t: &[Ty]) -> Out { u257(c4::functions::fun33::decode_output(d), t) }
fn k257(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun33::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u257(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u258(r: ethabi::Result<(Uint, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e258(v: &[Val]) -> Vec<u8> { c4::functions::fun34::encode_input(arg::<[u8; 4]>(v, 0), arg::<Uint>(v, 1)) }
fn d258(d: &[u8], t: &[Ty]) -> Out { u258(c4::functions::fun34::decode_output(d), t) }
fn k258(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun34::call(arg::<[u8; 4]>(v, 0), arg::<Uint>(v, 1)); (i, u258(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u259(r: ethabi::Result<(Uint, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e259(v: &[Val]) -> Vec<u8> { c4::functions::fun35::encode_input(arg::<[u8; 4]>(v, 0), arg::<Uint>(v, 1)) }
fn d259(d: &[u8], t: &[Ty]) -> Out { u259(c4::functions::fun35::decode_output(d), t) }
fn k259(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun35::call(arg::<[u8; 4]>(v, 0), arg::<Uint>(v, 1)); (i, u259(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u260(r: ethabi::Result<(bool, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e260(v: &[Val]) -> Vec<u8> { c4::functions::fun36::encode_input(arg::<[u8; 4]>(v, 0), arg::<bool>(v, 1)) }
fn d260(d: &[u8], t: &[Ty]) -> Out { u260(c4::functions::fun36::decode_output(d), t) }
fn k260(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun36::call(arg::<[u8; 4]>(v, 0), arg::<bool>(v, 1)); (i, u260(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u261(r: ethabi::Result<(String, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e261(v: &[Val]) -> Vec<u8> { c4::functions::fun37::encode_input(arg::<[u8; 4]>(v, 0), arg::<String>(v, 1)) }
fn d261(d: &[u8], t: &[Ty]) -> Out { u261(c4::functions::fun37::decode_output(d), t) }
fn k261(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun37::call(arg::<[u8; 4]>(v, 0), arg::<String>(v, 1)); (i, u261(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u262(r: ethabi::Result<(Vec<Uint>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e262(v: &[Val]) -> Vec<u8> { c4::functions::fun38::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d262(d: &[u8], t: &[Ty]) -> Out { u262(c4::functions::fun38::decode_output(d), t) }
fn k262(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun38::call(arg::<[u8; 4]>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u262(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u263(r: ethabi::Result<([Vec<u8>; 2], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e263(v: &[Val]) -> Vec<u8> { c4::functions::fun39::encode_input(arg::<[u8; 4]>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d263(d: &[u8], t: &[Ty]) -> Out { u263(c4::functions::fun39::decode_output(d), t) }
fn k263(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun39::call(arg::<[u8; 4]>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u263(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u264(r: ethabi::Result<(Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e264(v: &[Val]) -> Vec<u8> { c4::functions::fun40::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1)) }
fn d264(d: &[u8], t: &[Ty]) -> Out { u264(c4::functions::fun40::decode_output(d), t) }
fn k264(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun40::call(arg::<Uint>(v, 0), arg::<Address>(v, 1)); (i, u264(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u265(r: ethabi::Result<(Vec<u8>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e265(v: &[Val]) -> Vec<u8> { c4::functions::fun41::encode_input(arg::<Uint>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d265(d: &[u8], t: &[Ty]) -> Out { u265(c4::functions::fun41::decode_output(d), t) }
fn k265(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun41::call(arg::<Uint>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u265(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u266(r: ethabi::Result<(Hash, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e266(v: &[Val]) -> Vec<u8> { c4::functions::fun42::encode_input(arg::<Uint>(v, 0), arg::<Hash>(v, 1)) }
fn d266(d: &[u8], t: &[Ty]) -> Out { u266(c4::functions::fun42::decode_output(d), t) }
fn k266(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun42::call(arg::<Uint>(v, 0), arg::<Hash>(v, 1)); (i, u266(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u267(r: ethabi::Result<([u8; 4], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e267(v: &[Val]) -> Vec<u8> { c4::functions::fun43::encode_input(arg::<Uint>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d267(d: &[u8], t: &[Ty]) -> Out { u267(c4::functions::fun43::decode_output(d), t) }
fn k267(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun43::call(arg::<Uint>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u267(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u268(r: ethabi::Result<(Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e268(v: &[Val]) -> Vec<u8> { c4::functions::fun44::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d268(d: &[u8], t: &[Ty]) -> Out { u268(c4::functions::fun44::decode_output(d), t) }
fn k268(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun44::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u268(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u269(r: ethabi::Result<(Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e269(v: &[Val]) -> Vec<u8> { c4::functions::fun45::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d269(d: &[u8], t: &[Ty]) -> Out { u269(c4::functions::fun45::decode_output(d), t) }
fn k269(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun45::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u269(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u270(r: ethabi::Result<(bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e270(v: &[Val]) -> Vec<u8> { c4::functions::fun46::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1)) }
fn d270(d: &[u8], t: &[Ty]) -> Out { u270(c4::functions::fun46::decode_output(d), t) }
fn k270(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun46::call(arg::<Uint>(v, 0), arg::<bool>(v, 1)); (i, u270(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u271(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e271(v: &[Val]) -> Vec<u8> { c4::functions::fun47::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d271(d: &[u8], t: &[Ty]) -> Out { u271(c4::functions::fun47::decode_output(d), t) }
fn k271(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun47::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u271(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u272(r: ethabi::Result<(Vec<Uint>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e272(v: &[Val]) -> Vec<u8> { c4::functions::fun48::encode_input(arg::<Uint>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d272(d: &[u8], t: &[Ty]) -> Out { u272(c4::functions::fun48::decode_output(d), t) }
fn k272(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun48::call(arg::<Uint>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u272(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u273(r: ethabi::Result<([Vec<u8>; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e273(v: &[Val]) -> Vec<u8> { c4::functions::fun49::encode_input(arg::<Uint>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d273(d: &[u8], t: &[Ty]) -> Out { u273(c4::functions::fun49::decode_output(d), t) }
fn k273(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun49::call(arg::<Uint>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u273(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u274(r: ethabi::Result<(Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e274(v: &[Val]) -> Vec<u8> { c4::functions::fun50::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1)) }
fn d274(d: &[u8], t: &[Ty]) -> Out { u274(c4::functions::fun50::decode_output(d), t) }
fn k274(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun50::call(arg::<Uint>(v, 0), arg::<Address>(v, 1)); (i, u274(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u275(r: ethabi::Result<(Vec<u8>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e275(v: &[Val]) -> Vec<u8> { c4::functions::fun51::encode_input(arg::<Uint>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d275(d: &[u8], t: &[Ty]) -> Out { u275(c4::functions::fun51::decode_output(d), t) }
fn k275(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun51::call(arg::<Uint>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u275(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u276(r: ethabi::Result<(Hash, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e276(v: &[Val]) -> Vec<u8> { c4::functions::fun52::encode_input(arg::<Uint>(v, 0), arg::<Hash>(v, 1)) }
fn d276(d: &[u8], t: &[Ty]) -> Out { u276(c4::functions::fun52::decode_output(d), t) }
fn k276(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun52::call(arg::<Uint>(v, 0), arg::<Hash>(v, 1)); (i, u276(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u277(r: ethabi::Result<([u8; 4], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e277(v: &[Val]) -> Vec<u8> { c4::functions::fun53::encode_input(arg::<Uint>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d277(d: &[u8], t: &[Ty]) -> Out { u277(c4::functions::fun53::decode_output(d), t) }
fn k277(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun53::call(arg::<Uint>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u277(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u278(r: ethabi::Result<(Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e278(v: &[Val]) -> Vec<u8> { c4::functions::fun54::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d278(d: &[u8], t: &[Ty]) -> Out { u278(c4::functions::fun54::decode_output(d), t) }
fn k278(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun54::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u278(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u279(r: ethabi::Result<(Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e279(v: &[Val]) -> Vec<u8> { c4::functions::fun55::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d279(d: &[u8], t: &[Ty]) -> Out { u279(c4::functions::fun55::decode_output(d), t) }
fn k279(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun55::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u279(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u280(r: ethabi::Result<(bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e280(v: &[Val]) -> Vec<u8> { c4::functions::fun56::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1)) }
fn d280(d: &[u8], t: &[Ty]) -> Out { u280(c4::functions::fun56::decode_output(d), t) }
fn k280(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun56::call(arg::<Uint>(v, 0), arg::<bool>(v, 1)); (i, u280(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u281(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e281(v: &[Val]) -> Vec<u8> { c4::functions::fun57::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d281(d: &[u8], t: &[Ty]) -> Out { u281(c4::functions::fun57::decode_output(d), t) }
fn k281(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun57::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u281(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u282(r: ethabi::Result<(Vec<Uint>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e282(v: &[Val]) -> Vec<u8> { c4::functions::fun58::encode_input(arg::<Uint>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d282(d: &[u8], t: &[Ty]) -> Out { u282(c4::functions::fun58::decode_output(d), t) }
fn k282(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun58::call(arg::<Uint>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u282(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u283(r: ethabi::Result<([Vec<u8>; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e283(v: &[Val]) -> Vec<u8> { c4::functions::fun59::encode_input(arg::<Uint>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d283(d: &[u8], t: &[Ty]) -> Out { u283(c4::functions::fun59::decode_output(d), t) }
fn k283(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun59::call(arg::<Uint>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u283(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u284(r: ethabi::Result<(Address, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e284(v: &[Val]) -> Vec<u8> { c4::functions::fun60::encode_input(arg::<bool>(v, 0), arg::<Address>(v, 1)) }
fn d284(d: &[u8], t: &[Ty]) -> Out { u284(c4::functions::fun60::decode_output(d), t) }
fn k284(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun60::call(arg::<bool>(v, 0), arg::<Address>(v, 1)); (i, u284(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u285(r: ethabi::Result<(Vec<u8>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e285(v: &[Val]) -> Vec<u8> { c4::functions::fun61::encode_input(arg::<bool>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d285(d: &[u8], t: &[Ty]) -> Out { u285(c4::functions::fun61::decode_output(d), t) }
fn k285(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun61::call(arg::<bool>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u285(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u286(r: ethabi::Result<(Hash, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e286(v: &[Val]) -> Vec<u8> { c4::functions::fun62::encode_input(arg::<bool>(v, 0), arg::<Hash>(v, 1)) }
fn d286(d: &[u8], t: &[Ty]) -> Out { u286(c4::functions::fun62::decode_output(d), t) }
fn k286(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun62::call(arg::<bool>(v, 0), arg::<Hash>(v, 1)); (i, u286(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u287(r: ethabi::Result<([u8; 4], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e287(v: &[Val]) -> Vec<u8> { c4::functions::fun63::encode_input(arg::<bool>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d287(d: &[u8], t: &[Ty]) -> Out { u287(c4::functions::fun63::decode_output(d), t) }
fn k287(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun63::call(arg::<bool>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u287(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u288(r: ethabi::Result<(Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e288(v: &[Val]) -> Vec<u8> { c4::functions::fun64::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1)) }
fn d288(d: &[u8], t: &[Ty]) -> Out { u288(c4::functions::fun64::decode_output(d), t) }
fn k288(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun64::call(arg::<bool>(v, 0), arg::<Uint>(v, 1)); (i, u288(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u289(r: ethabi::Result<(Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e289(v: &[Val]) -> Vec<u8> { c4::functions::fun65::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1)) }
fn d289(d: &[u8], t: &[Ty]) -> Out { u289(c4::functions::fun65::decode_output(d), t) }
fn k289(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun65::call(arg::<bool>(v, 0), arg::<Uint>(v, 1)); (i, u289(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u290(r: ethabi::Result<(bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e290(v: &[Val]) -> Vec<u8> { c4::functions::fun66::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1)) }
fn d290(d: &[u8], t: &[Ty]) -> Out { u290(c4::functions::fun66::decode_output(d), t) }
fn k290(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun66::call(arg::<bool>(v, 0), arg::<bool>(v, 1)); (i, u290(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u291(r: ethabi::Result<(String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e291(v: &[Val]) -> Vec<u8> { c4::functions::fun67::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1)) }
fn d291(d: &[u8], t: &[Ty]) -> Out { u291(c4::functions::fun67::decode_output(d), t) }
fn k291(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun67::call(arg::<bool>(v, 0), arg::<String>(v, 1)); (i, u291(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u292(r: ethabi::Result<(Vec<Uint>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e292(v: &[Val]) -> Vec<u8> { c4::functions::fun68::encode_input(arg::<bool>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d292(d: &[u8], t: &[Ty]) -> Out { u292(c4::functions::fun68::decode_output(d), t) }
fn k292(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun68::call(arg::<bool>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u292(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u293(r: ethabi::Result<([Vec<u8>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e293(v: &[Val]) -> Vec<u8> { c4::functions::fun69::encode_input(arg::<bool>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d293(d: &[u8], t: &[Ty]) -> Out { u293(c4::functions::fun69::decode_output(d), t) }
fn k293(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun69::call(arg::<bool>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u293(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u294(r: ethabi::Result<(Address, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e294(v: &[Val]) -> Vec<u8> { c4::functions::fun70::encode_input(arg::<String>(v, 0), arg::<Address>(v, 1)) }
fn d294(d: &[u8], t: &[Ty]) -> Out { u294(c4::functions::fun70::decode_output(d), t) }
fn k294(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun70::call(arg::<String>(v, 0), arg::<Address>(v, 1)); (i, u294(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u295(r: ethabi::Result<(Vec<u8>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e295(v: &[Val]) -> Vec<u8> { c4::functions::fun71::encode_input(arg::<String>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d295(d: &[u8], t: &[Ty]) -> Out { u295(c4::functions::fun71::decode_output(d), t) }
fn k295(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun71::call(arg::<String>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u295(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u296(r: ethabi::Result<(Hash, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e296(v: &[Val]) -> Vec<u8> { c4::functions::fun72::encode_input(arg::<String>(v, 0), arg::<Hash>(v, 1)) }
fn d296(d: &[u8], t: &[Ty]) -> Out { u296(c4::functions::fun72::decode_output(d), t) }
fn k296(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun72::call(arg::<String>(v, 0), arg::<Hash>(v, 1)); (i, u296(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u297(r: ethabi::Result<([u8; 4], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e297(v: &[Val]) -> Vec<u8> { c4::functions::fun73::encode_input(arg::<String>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d297(d: &[u8], t: &[Ty]) -> Out { u297(c4::functions::fun73::decode_output(d), t) }
fn k297(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun73::call(arg::<String>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u297(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u298(r: ethabi::Result<(Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e298(v: &[Val]) -> Vec<u8> { c4::functions::fun74::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1)) }
fn d298(d: &[u8], t: &[Ty]) -> Out { u298(c4::functions::fun74::decode_output(d), t) }
fn k298(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun74::call(arg::<String>(v, 0), arg::<Uint>(v, 1)); (i, u298(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u299(r: ethabi::Result<(Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e299(v: &[Val]) -> Vec<u8> { c4::functions::fun75::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1)) }
fn d299(d: &[u8], t: &[Ty]) -> Out { u299(c4::functions::fun75::decode_output(d), t) }
fn k299(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun75::call(arg::<String>(v, 0), arg::<Uint>(v, 1)); (i, u299(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u300(r: ethabi::Result<(bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e300(v: &[Val]) -> Vec<u8> { c4::functions::fun76::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1)) }
fn d300(d: &[u8], t: &[Ty]) -> Out { u300(c4::functions::fun76::decode_output(d), t) }
fn k300(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun76::call(arg::<String>(v, 0), arg::<bool>(v, 1)); (i, u300(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u301(r: ethabi::Result<(String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e301(v: &[Val]) -> Vec<u8> { c4::functions::fun77::encode_input(arg::<String>(v, 0), arg::<String>(v, 1)) }
fn d301(d: &[u8], t: &[Ty]) -> Out { u301(c4::functions::fun77::decode_output(d), t) }
fn k301(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun77::call(arg::<String>(v, 0), arg::<String>(v, 1)); (i, u301(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u302(r: ethabi::Result<(Vec<Uint>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e302(v: &[Val]) -> Vec<u8> { c4::functions::fun78::encode_input(arg::<String>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d302(d: &[u8], t: &[Ty]) -> Out { u302(c4::functions::fun78::decode_output(d), t) }
fn k302(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun78::call(arg::<String>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u302(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u303(r: ethabi::Result<([Vec<u8>; 2], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e303(v: &[Val]) -> Vec<u8> { c4::functions::fun79::encode_input(arg::<String>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d303(d: &[u8], t: &[Ty]) -> Out { u303(c4::functions::fun79::decode_output(d), t) }
fn k303(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun79::call(arg::<String>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u303(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u304(r: ethabi::Result<(Address, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e304(v: &[Val]) -> Vec<u8> { c4::functions::fun80::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Address>(v, 1)) }
fn d304(d: &[u8], t: &[Ty]) -> Out { u304(c4::functions::fun80::decode_output(d), t) }
fn k304(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun80::call(arg::<Vec<Uint>>(v, 0), arg::<Address>(v, 1)); (i, u304(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u305(r: ethabi::Result<(Vec<u8>, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e305(v: &[Val]) -> Vec<u8> { c4::functions::fun81::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d305(d: &[u8], t: &[Ty]) -> Out { u305(c4::functions::fun81::decode_output(d), t) }
fn k305(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun81::call(arg::<Vec<Uint>>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u305(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u306(r: ethabi::Result<(Hash, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e306(v: &[Val]) -> Vec<u8> { c4::functions::fun82::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Hash>(v, 1)) }
fn d306(d: &[u8], t: &[Ty]) -> Out { u306(c4::functions::fun82::decode_output(d), t) }
fn k306(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun82::call(arg::<Vec<Uint>>(v, 0), arg::<Hash>(v, 1)); (i, u306(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u307(r: ethabi::Result<([u8; 4], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e307(v: &[Val]) -> Vec<u8> { c4::functions::fun83::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d307(d: &[u8], t: &[Ty]) -> Out { u307(c4::functions::fun83::decode_output(d), t) }
fn k307(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun83::call(arg::<Vec<Uint>>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u307(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u308(r: ethabi::Result<(Uint, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e308(v: &[Val]) -> Vec<u8> { c4::functions::fun84::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Uint>(v, 1)) }
fn d308(d: &[u8], t: &[Ty]) -> Out { u308(c4::functions::fun84::decode_output(d), t) }
fn k308(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun84::call(arg::<Vec<Uint>>(v, 0), arg::<Uint>(v, 1)); (i, u308(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u309(r: ethabi::Result<(Uint, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e309(v: &[Val]) -> Vec<u8> { c4::functions::fun85::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Uint>(v, 1)) }
fn d309(d: &[u8], t: &[Ty]) -> Out { u309(c4::functions::fun85::decode_output(d), t) }
fn k309(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun85::call(arg::<Vec<Uint>>(v, 0), arg::<Uint>(v, 1)); (i, u309(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u310(r: ethabi::Result<(bool, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e310(v: &[Val]) -> Vec<u8> { c4::functions::fun86::encode_input(arg::<Vec<Uint>>(v, 0), arg::<bool>(v, 1)) }
fn d310(d: &[u8], t: &[Ty]) -> Out { u310(c4::functions::fun86::decode_output(d), t) }
fn k310(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun86::call(arg::<Vec<Uint>>(v, 0), arg::<bool>(v, 1)); (i, u310(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u311(r: ethabi::Result<(String, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e311(v: &[Val]) -> Vec<u8> { c4::functions::fun87::encode_input(arg::<Vec<Uint>>(v, 0), arg::<String>(v, 1)) }
fn d311(d: &[u8], t: &[Ty]) -> Out { u311(c4::functions::fun87::decode_output(d), t) }
fn k311(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun87::call(arg::<Vec<Uint>>(v, 0), arg::<String>(v, 1)); (i, u311(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u312(r: ethabi::Result<(Vec<Uint>, Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e312(v: &[Val]) -> Vec<u8> { c4::functions::fun88::encode_input(arg::<Vec<Uint>>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d312(d: &[u8], t: &[Ty]) -> Out { u312(c4::functions::fun88::decode_output(d), t) }
fn k312(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun88::call(arg::<Vec<Uint>>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u312(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u313(r: ethabi::Result<([Vec<u8>; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e313(v: &[Val]) -> Vec<u8> { c4::functions::fun89::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d313(d: &[u8], t: &[Ty]) -> Out { u313(c4::functions::fun89::decode_output(d), t) }
fn k313(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun89::call(arg::<Vec<Uint>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u313(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u314(r: ethabi::Result<(Address, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e314(v: &[Val]) -> Vec<u8> { c4::functions::fun90::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Address>(v, 1)) }
fn d314(d: &[u8], t: &[Ty]) -> Out { u314(c4::functions::fun90::decode_output(d), t) }
fn k314(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun90::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Address>(v, 1)); (i, u314(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u315(r: ethabi::Result<(Vec<u8>, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e315(v: &[Val]) -> Vec<u8> { c4::functions::fun91::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn d315(d: &[u8], t: &[Ty]) -> Out { u315(c4::functions::fun91::decode_output(d), t) }
fn k315(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun91::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Vec<u8>>(v, 1)); (i, u315(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u316(r: ethabi::Result<(Hash, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e316(v: &[Val]) -> Vec<u8> { c4::functions::fun92::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Hash>(v, 1)) }
fn d316(d: &[u8], t: &[Ty]) -> Out { u316(c4::functions::fun92::decode_output(d), t) }
fn k316(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun92::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Hash>(v, 1)); (i, u316(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u317(r: ethabi::Result<([u8; 4], [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e317(v: &[Val]) -> Vec<u8> { c4::functions::fun93::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn d317(d: &[u8], t: &[Ty]) -> Out { u317(c4::functions::fun93::decode_output(d), t) }
fn k317(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun93::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<[u8; 4]>(v, 1)); (i, u317(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u318(r: ethabi::Result<(Uint, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e318(v: &[Val]) -> Vec<u8> { c4::functions::fun94::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Uint>(v, 1)) }
fn d318(d: &[u8], t: &[Ty]) -> Out { u318(c4::functions::fun94::decode_output(d), t) }
fn k318(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun94::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Uint>(v, 1)); (i, u318(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u319(r: ethabi::Result<(Uint, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e319(v: &[Val]) -> Vec<u8> { c4::functions::fun95::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Uint>(v, 1)) }
fn d319(d: &[u8], t: &[Ty]) -> Out { u319(c4::functions::fun95::decode_output(d), t) }
fn k319(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun95::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Uint>(v, 1)); (i, u319(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u320(r: ethabi::Result<(bool, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e320(v: &[Val]) -> Vec<u8> { c4::functions::fun96::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<bool>(v, 1)) }
fn d320(d: &[u8], t: &[Ty]) -> Out { u320(c4::functions::fun96::decode_output(d), t) }
fn k320(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun96::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<bool>(v, 1)); (i, u320(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u321(r: ethabi::Result<(String, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e321(v: &[Val]) -> Vec<u8> { c4::functions::fun97::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<String>(v, 1)) }
fn d321(d: &[u8], t: &[Ty]) -> Out { u321(c4::functions::fun97::decode_output(d), t) }
fn k321(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun97::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<String>(v, 1)); (i, u321(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u322(r: ethabi::Result<(Vec<Uint>, [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e322(v: &[Val]) -> Vec<u8> { c4::functions::fun98::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<Vec<Uint>>(v, 1)) }
fn d322(d: &[u8], t: &[Ty]) -> Out { u322(c4::functions::fun98::decode_output(d), t) }
fn k322(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun98::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<Vec<Uint>>(v, 1)); (i, u322(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u323(r: ethabi::Result<([Vec<u8>; 2], [Vec<u8>; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e323(v: &[Val]) -> Vec<u8> { c4::functions::fun99::encode_input(arg::<[Vec<u8>; 2]>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d323(d: &[u8], t: &[Ty]) -> Out { u323(c4::functions::fun99::decode_output(d), t) }
fn k323(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c4::functions::fun99::call(arg::<[Vec<u8>; 2]>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u323(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u324(r: ethabi::Result<(Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e324(v: &[Val]) -> Vec<u8> { c5::functions::fun0::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d324(d: &[u8], t: &[Ty]) -> Out { u324(c5::functions::fun0::decode_output(d), t) }
fn k324(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun0::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u324(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u325(r: ethabi::Result<(String, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e325(v: &[Val]) -> Vec<u8> { c5::functions::fun1::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)) }
fn d325(d: &[u8], t: &[Ty]) -> Out { u325(c5::functions::fun1::decode_output(d), t) }
fn k325(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun1::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)); (i, u325(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u326(r: ethabi::Result<(Vec<[u8; 4]>, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e326(v: &[Val]) -> Vec<u8> { c5::functions::fun2::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d326(d: &[u8], t: &[Ty]) -> Out { u326(c5::functions::fun2::decode_output(d), t) }
fn k326(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun2::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u326(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u327(r: ethabi::Result<([bool; 2], Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e327(v: &[Val]) -> Vec<u8> { c5::functions::fun3::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d327(d: &[u8], t: &[Ty]) -> Out { u327(c5::functions::fun3::decode_output(d), t) }
fn k327(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun3::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u327(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u328(r: ethabi::Result<(Uint, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e328(v: &[Val]) -> Vec<u8> { c5::functions::fun4::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)) }
fn d328(d: &[u8], t: &[Ty]) -> Out { u328(c5::functions::fun4::decode_output(d), t) }
fn k328(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun4::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)); (i, u328(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u329(r: ethabi::Result<(String, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e329(v: &[Val]) -> Vec<u8> { c5::functions::fun5::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)) }
fn d329(d: &[u8], t: &[Ty]) -> Out { u329(c5::functions::fun5::decode_output(d), t) }
fn k329(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun5::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)); (i, u329(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u330(r: ethabi::Result<(Vec<[u8; 4]>, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e330(v: &[Val]) -> Vec<u8> { c5::functions::fun6::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d330(d: &[u8], t: &[Ty]) -> Out { u330(c5::functions::fun6::decode_output(d), t) }
fn k330(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun6::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u330(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u331(r: ethabi::Result<([bool; 2], String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e331(v: &[Val]) -> Vec<u8> { c5::functions::fun7::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d331(d: &[u8], t: &[Ty]) -> Out { u331(c5::functions::fun7::decode_output(d), t) }
fn k331(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun7::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u331(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u332(r: ethabi::Result<(Uint, Vec<[u8; 4]>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e332(v: &[Val]) -> Vec<u8> { c5::functions::fun8::encode_input(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)) }
fn d332(d: &[u8], t: &[Ty]) -> Out { u332(c5::functions::fun8::decode_output(d), t) }
fn k332(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun8::call(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)); (i, u332(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u333(r: ethabi::Result<(String, Vec<[u8; 4]>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e333(v: &[Val]) -> Vec<u8> { c5::functions::fun9::encode_input(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)) }
fn d333(d: &[u8], t: &[Ty]) -> Out { u333(c5::functions::fun9::decode_output(d), t) }
fn k333(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun9::call(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)); (i, u333(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u334(r: ethabi::Result<(Vec<[u8; 4]>, Vec<[u8; 4]>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e334(v: &[Val]) -> Vec<u8> { c5::functions::fun10::encode_input(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d334(d: &[u8], t: &[Ty]) -> Out { u334(c5::functions::fun10::decode_output(d), t) }
fn k334(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun10::call(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u334(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u335(r: ethabi::Result<([bool; 2], Vec<[u8; 4]>, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e335(v: &[Val]) -> Vec<u8> { c5::functions::fun11::encode_input(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d335(d: &[u8], t: &[Ty]) -> Out { u335(c5::functions::fun11::decode_output(d), t) }
fn k335(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun11::call(arg::<Uint>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u335(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u336(r: ethabi::Result<(Uint, [bool; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e336(v: &[Val]) -> Vec<u8> { c5::functions::fun12::encode_input(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)) }
fn d336(d: &[u8], t: &[Ty]) -> Out { u336(c5::functions::fun12::decode_output(d), t) }
fn k336(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun12::call(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)); (i, u336(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u337(r: ethabi::Result<(String, [bool; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e337(v: &[Val]) -> Vec<u8> { c5::functions::fun13::encode_input(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)) }
fn d337(d: &[u8], t: &[Ty]) -> Out { u337(c5::functions::fun13::decode_output(d), t) }
fn k337(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun13::call(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)); (i, u337(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u338(r: ethabi::Result<(Vec<[u8; 4]>, [bool; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e338(v: &[Val]) -> Vec<u8> { c5::functions::fun14::encode_input(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d338(d: &[u8], t: &[Ty]) -> Out { u338(c5::functions::fun14::decode_output(d), t) }
fn k338(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun14::call(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u338(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u339(r: ethabi::Result<([bool; 2], [bool; 2], Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e339(v: &[Val]) -> Vec<u8> { c5::functions::fun15::encode_input(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d339(d: &[u8], t: &[Ty]) -> Out { u339(c5::functions::fun15::decode_output(d), t) }
fn k339(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun15::call(arg::<Uint>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u339(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u340(r: ethabi::Result<(Uint, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e340(v: &[Val]) -> Vec<u8> { c5::functions::fun16::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d340(d: &[u8], t: &[Ty]) -> Out { u340(c5::functions::fun16::decode_output(d), t) }
fn k340(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun16::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u340(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u341(r: ethabi::Result<(String, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e341(v: &[Val]) -> Vec<u8> { c5::functions::fun17::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)) }
fn d341(d: &[u8], t: &[Ty]) -> Out { u341(c5::functions::fun17::decode_output(d), t) }
fn k341(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun17::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)); (i, u341(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u342(r: ethabi::Result<(Vec<[u8; 4]>, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e342(v: &[Val]) -> Vec<u8> { c5::functions::fun18::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d342(d: &[u8], t: &[Ty]) -> Out { u342(c5::functions::fun18::decode_output(d), t) }
fn k342(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun18::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u342(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u343(r: ethabi::Result<([bool; 2], Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e343(v: &[Val]) -> Vec<u8> { c5::functions::fun19::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d343(d: &[u8], t: &[Ty]) -> Out { u343(c5::functions::fun19::decode_output(d), t) }
fn k343(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun19::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u343(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u344(r: ethabi::Result<(Uint, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e344(v: &[Val]) -> Vec<u8> { c5::functions::fun20::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)) }
fn d344(d: &[u8], t: &[Ty]) -> Out { u344(c5::functions::fun20::decode_output(d), t) }
fn k344(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun20::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)); (i, u344(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u345(r: ethabi::Result<(String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e345(v: &[Val]) -> Vec<u8> { c5::functions::fun21::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)) }
fn d345(d: &[u8], t: &[Ty]) -> Out { u345(c5::functions::fun21::decode_output(d), t) }
fn k345(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun21::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)); (i, u345(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u346(r: ethabi::Result<(Vec<[u8; 4]>, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e346(v: &[Val]) -> Vec<u8> { c5::functions::fun22::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d346(d: &[u8], t: &[Ty]) -> Out { u346(c5::functions::fun22::decode_output(d), t) }
fn k346(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun22::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u346(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u347(r: ethabi::Result<([bool; 2], String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e347(v: &[Val]) -> Vec<u8> { c5::functions::fun23::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d347(d: &[u8], t: &[Ty]) -> Out { u347(c5::functions::fun23::decode_output(d), t) }
fn k347(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun23::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u347(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u348(r: ethabi::Result<(Uint, Vec<[u8; 4]>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e348(v: &[Val]) -> Vec<u8> { c5::functions::fun24::encode_input(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)) }
fn d348(d: &[u8], t: &[Ty]) -> Out { u348(c5::functions::fun24::decode_output(d), t) }
fn k348(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun24::call(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)); (i, u348(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u349(r: ethabi::Result<(String, Vec<[u8; 4]>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e349(v: &[Val]) -> Vec<u8> { c5::functions::fun25::encode_input(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)) }
fn d349(d: &[u8], t: &[Ty]) -> Out { u349(c5::functions::fun25::decode_output(d), t) }
fn k349(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun25::call(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)); (i, u349(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u350(r: ethabi::Result<(Vec<[u8; 4]>, Vec<[u8; 4]>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e350(v: &[Val]) -> Vec<u8> { c5::functions::fun26::encode_input(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d350(d: &[u8], t: &[Ty]) -> Out { u350(c5::functions::fun26::decode_output(d), t) }
fn k350(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun26::call(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u350(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u351(r: ethabi::Result<([bool; 2], Vec<[u8; 4]>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e351(v: &[Val]) -> Vec<u8> { c5::functions::fun27::encode_input(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d351(d: &[u8], t: &[Ty]) -> Out { u351(c5::functions::fun27::decode_output(d), t) }
fn k351(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun27::call(arg::<String>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u351(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u352(r: ethabi::Result<(Uint, [bool; 2], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e352(v: &[Val]) -> Vec<u8> { c5::functions::fun28::encode_input(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)) }
fn d352(d: &[u8], t: &[Ty]) -> Out { u352(c5::functions::fun28::decode_output(d), t) }
fn k352(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun28::call(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)); (i, u352(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u353(r: ethabi::Result<(String, [bool; 2], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e353(v: &[Val]) -> Vec<u8> { c5::functions::fun29::encode_input(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)) }
fn d353(d: &[u8], t: &[Ty]) -> Out { u353(c5::functions::fun29::decode_output(d), t) }
fn k353(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun29::call(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)); (i, u353(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u354(r: ethabi::Result<(Vec<[u8; 4]>, [bool; 2], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e354(v: &[Val]) -> Vec<u8> { c5::functions::fun30::encode_input(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d354(d: &[u8], t: &[Ty]) -> Out { u354(c5::functions::fun30::decode_output(d), t) }
fn k354(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun30::call(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u354(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u355(r: ethabi::Result<([bool; 2], [bool; 2], String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e355(v: &[Val]) -> Vec<u8> { c5::functions::fun31::encode_input(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d355(d: &[u8], t: &[Ty]) -> Out { u355(c5::functions::fun31::decode_output(d), t) }
fn k355(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun31::call(arg::<String>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u355(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u356(r: ethabi::Result<(Uint, Uint, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e356(v: &[Val]) -> Vec<u8> { c5::functions::fun32::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d356(d: &[u8], t: &[Ty]) -> Out { u356(c5::functions::fun32::decode_output(d), t) }
fn k356(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun32::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u356(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u357(r: ethabi::Result<(String, Uint, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e357(v: &[Val]) -> Vec<u8> { c5::functions::fun33::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)) }
fn d357(d: &[u8], t: &[Ty]) -> Out { u357(c5::functions::fun33::decode_output(d), t) }
fn k357(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun33::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)); (i, u357(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u358(r: ethabi::Result<(Vec<[u8; 4]>, Uint, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e358(v: &[Val]) -> Vec<u8> { c5::functions::fun34::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d358(d: &[u8], t: &[Ty]) -> Out { u358(c5::functions::fun34::decode_output(d), t) }
fn k358(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun34::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u358(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u359(r: ethabi::Result<([bool; 2], Uint, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e359(v: &[Val]) -> Vec<u8> { c5::functions::fun35::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d359(d: &[u8], t: &[Ty]) -> Out { u359(c5::functions::fun35::decode_output(d), t) }
fn k359(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun35::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u359(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u360(r: ethabi::Result<(Uint, String, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e360(v: &[Val]) -> Vec<u8> { c5::functions::fun36::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)) }
fn d360(d: &[u8], t: &[Ty]) -> Out { u360(c5::functions::fun36::decode_output(d), t) }
fn k360(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun36::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)); (i, u360(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u361(r: ethabi::Result<(String, String, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e361(v: &[Val]) -> Vec<u8> { c5::functions::fun37::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)) }
fn d361(d: &[u8], t: &[Ty]) -> Out { u361(c5::functions::fun37::decode_output(d), t) }
fn k361(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun37::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)); (i, u361(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u362(r: ethabi::Result<(Vec<[u8; 4]>, String, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e362(v: &[Val]) -> Vec<u8> { c5::functions::fun38::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d362(d: &[u8], t: &[Ty]) -> Out { u362(c5::functions::fun38::decode_output(d), t) }
fn k362(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun38::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u362(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u363(r: ethabi::Result<([bool; 2], String, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e363(v: &[Val]) -> Vec<u8> { c5::functions::fun39::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d363(d: &[u8], t: &[Ty]) -> Out { u363(c5::functions::fun39::decode_output(d), t) }
fn k363(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun39::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u363(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u364(r: ethabi::Result<(Uint, Vec<[u8; 4]>, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e364(v: &[Val]) -> Vec<u8> { c5::functions::fun40::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)) }
fn d364(d: &[u8], t: &[Ty]) -> Out { u364(c5::functions::fun40::decode_output(d), t) }
fn k364(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun40::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)); (i, u364(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u365(r: ethabi::Result<(String, Vec<[u8; 4]>, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e365(v: &[Val]) -> Vec<u8> { c5::functions::fun41::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)) }
fn d365(d: &[u8], t: &[Ty]) -> Out { u365(c5::functions::fun41::decode_output(d), t) }
fn k365(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun41::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)); (i, u365(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u366(r: ethabi::Result<(Vec<[u8; 4]>, Vec<[u8; 4]>, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e366(v: &[Val]) -> Vec<u8> { c5::functions::fun42::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d366(d: &[u8], t: &[Ty]) -> Out { u366(c5::functions::fun42::decode_output(d), t) }
fn k366(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun42::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u366(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u367(r: ethabi::Result<([bool; 2], Vec<[u8; 4]>, Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e367(v: &[Val]) -> Vec<u8> { c5::functions::fun43::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d367(d: &[u8], t: &[Ty]) -> Out { u367(c5::functions::fun43::decode_output(d), t) }
fn k367(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun43::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u367(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u368(r: ethabi::Result<(Uint, [bool; 2], Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e368(v: &[Val]) -> Vec<u8> { c5::functions::fun44::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)) }
fn d368(d: &[u8], t: &[Ty]) -> Out { u368(c5::functions::fun44::decode_output(d), t) }
fn k368(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun44::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)); (i, u368(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u369(r: ethabi::Result<(String, [bool; 2], Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e369(v: &[Val]) -> Vec<u8> { c5::functions::fun45::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)) }
fn d369(d: &[u8], t: &[Ty]) -> Out { u369(c5::functions::fun45::decode_output(d), t) }
fn k369(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun45::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)); (i, u369(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u370(r: ethabi::Result<(Vec<[u8; 4]>, [bool; 2], Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e370(v: &[Val]) -> Vec<u8> { c5::functions::fun46::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d370(d: &[u8], t: &[Ty]) -> Out { u370(c5::functions::fun46::decode_output(d), t) }
fn k370(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun46::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u370(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u371(r: ethabi::Result<([bool; 2], [bool; 2], Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e371(v: &[Val]) -> Vec<u8> { c5::functions::fun47::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d371(d: &[u8], t: &[Ty]) -> Out { u371(c5::functions::fun47::decode_output(d), t) }
fn k371(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun47::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u371(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u372(r: ethabi::Result<(Uint, Uint, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e372(v: &[Val]) -> Vec<u8> { c5::functions::fun48::encode_input(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d372(d: &[u8], t: &[Ty]) -> Out { u372(c5::functions::fun48::decode_output(d), t) }
fn k372(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun48::call(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u372(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u373(r: ethabi::Result<(String, Uint, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e373(v: &[Val]) -> Vec<u8> { c5::functions::fun49::encode_input(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)) }
fn d373(d: &[u8], t: &[Ty]) -> Out { u373(c5::functions::fun49::decode_output(d), t) }
fn k373(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun49::call(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2)); (i, u373(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u374(r: ethabi::Result<(Vec<[u8; 4]>, Uint, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e374(v: &[Val]) -> Vec<u8> { c5::functions::fun50::encode_input(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d374(d: &[u8], t: &[Ty]) -> Out { u374(c5::functions::fun50::decode_output(d), t) }
fn k374(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun50::call(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u374(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u375(r: ethabi::Result<([bool; 2], Uint, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e375(v: &[Val]) -> Vec<u8> { c5::functions::fun51::encode_input(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d375(d: &[u8], t: &[Ty]) -> Out { u375(c5::functions::fun51::decode_output(d), t) }
fn k375(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun51::call(arg::<[bool; 2]>(v, 0), arg::<Uint>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u375(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u376(r: ethabi::Result<(Uint, String, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e376(v: &[Val]) -> Vec<u8> { c5::functions::fun52::encode_input(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)) }
fn d376(d: &[u8], t: &[Ty]) -> Out { u376(c5::functions::fun52::decode_output(d), t) }
fn k376(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun52::call(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2)); (i, u376(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u377(r: ethabi::Result<(String, String, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e377(v: &[Val]) -> Vec<u8> { c5::functions::fun53::encode_input(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)) }
fn d377(d: &[u8], t: &[Ty]) -> Out { u377(c5::functions::fun53::decode_output(d), t) }
fn k377(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun53::call(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2)); (i, u377(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u378(r: ethabi::Result<(Vec<[u8; 4]>, String, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e378(v: &[Val]) -> Vec<u8> { c5::functions::fun54::encode_input(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d378(d: &[u8], t: &[Ty]) -> Out { u378(c5::functions::fun54::decode_output(d), t) }
fn k378(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun54::call(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u378(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u379(r: ethabi::Result<([bool; 2], String, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e379(v: &[Val]) -> Vec<u8> { c5::functions::fun55::encode_input(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d379(d: &[u8], t: &[Ty]) -> Out { u379(c5::functions::fun55::decode_output(d), t) }
fn k379(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun55::call(arg::<[bool; 2]>(v, 0), arg::<String>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u379(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u380(r: ethabi::Result<(Uint, Vec<[u8; 4]>, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e380(v: &[Val]) -> Vec<u8> { c5::functions::fun56::encode_input(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)) }
fn d380(d: &[u8], t: &[Ty]) -> Out { u380(c5::functions::fun56::decode_output(d), t) }
fn k380(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun56::call(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Uint>(v, 2)); (i, u380(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u381(r: ethabi::Result<(String, Vec<[u8; 4]>, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e381(v: &[Val]) -> Vec<u8> { c5::functions::fun57::encode_input(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)) }
fn d381(d: &[u8], t: &[Ty]) -> Out { u381(c5::functions::fun57::decode_output(d), t) }
fn k381(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun57::call(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<String>(v, 2)); (i, u381(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u382(r: ethabi::Result<(Vec<[u8; 4]>, Vec<[u8; 4]>, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e382(v: &[Val]) -> Vec<u8> { c5::functions::fun58::encode_input(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d382(d: &[u8], t: &[Ty]) -> Out { u382(c5::functions::fun58::decode_output(d), t) }
fn k382(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun58::call(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u382(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u383(r: ethabi::Result<([bool; 2], Vec<[u8; 4]>, [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e383(v: &[Val]) -> Vec<u8> { c5::functions::fun59::encode_input(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d383(d: &[u8], t: &[Ty]) -> Out { u383(c5::functions::fun59::decode_output(d), t) }
fn k383(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun59::call(arg::<[bool; 2]>(v, 0), arg::<Vec<[u8; 4]>>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u383(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u384(r: ethabi::Result<(Uint, [bool; 2], [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e384(v: &[Val]) -> Vec<u8> { c5::functions::fun60::encode_input(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)) }
fn d384(d: &[u8], t: &[Ty]) -> Out { u384(c5::functions::fun60::decode_output(d), t) }
fn k384(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun60::call(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Uint>(v, 2)); (i, u384(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u385(r: ethabi::Result<(String, [bool; 2], [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e385(v: &[Val]) -> Vec<u8> { c5::functions::fun61::encode_input(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)) }
fn d385(d: &[u8], t: &[Ty]) -> Out { u385(c5::functions::fun61::decode_output(d), t) }
fn k385(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun61::call(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<String>(v, 2)); (i, u385(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u386(r: ethabi::Result<(Vec<[u8; 4]>, [bool; 2], [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e386(v: &[Val]) -> Vec<u8> { c5::functions::fun62::encode_input(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)) }
fn d386(d: &[u8], t: &[Ty]) -> Out { u386(c5::functions::fun62::decode_output(d), t) }
fn k386(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun62::call(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<Vec<[u8; 4]>>(v, 2)); (i, u386(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u387(r: ethabi::Result<([bool; 2], [bool; 2], [bool; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2])]).map_err(|e| e.to_string()) }
fn e387(v: &[Val]) -> Vec<u8> { c5::functions::fun63::encode_input(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)) }
fn d387(d: &[u8], t: &[Ty]) -> Out { u387(c5::functions::fun63::decode_output(d), t) }
fn k387(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c5::functions::fun63::call(arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1), arg::<[bool; 2]>(v, 2)); (i, u387(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u388(r: ethabi::Result<()>, t: &[Ty]) -> Out { r.map(|()| vec![]).map_err(|e| e.to_string()) }
fn e388(v: &[Val]) -> Vec<u8> { c6::functions::fun0::encode_input() }
fn d388(d: &[u8], t: &[Ty]) -> Out { u388(c6::functions::fun0::decode_output(d), t) }
fn k388(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun0::call(); (i, u388(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u389(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e389(v: &[Val]) -> Vec<u8> { c6::functions::fun1::encode_input() }
fn d389(d: &[u8], t: &[Ty]) -> Out { u389(c6::functions::fun1::decode_output(d), t) }
fn k389(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun1::call(); (i, u389(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u390(r: ethabi::Result<()>, t: &[Ty]) -> Out { r.map(|()| vec![]).map_err(|e| e.to_string()) }
fn e390(v: &[Val]) -> Vec<u8> { c6::functions::fun2::encode_input(arg::<Uint>(v, 0)) }
fn d390(d: &[u8], t: &[Ty]) -> Out { u390(c6::functions::fun2::decode_output(d), t) }
fn k390(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun2::call(arg::<Uint>(v, 0)); (i, u390(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u391(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e391(v: &[Val]) -> Vec<u8> { c6::functions::fun3::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7)) }
fn d391(d: &[u8], t: &[Ty]) -> Out { u391(c6::functions::fun3::decode_output(d), t) }
fn k391(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun3::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7)); (i, u391(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u392(r: ethabi::Result<(Address, Vec<u8>, Hash, [u8; 4], Uint, Uint, Uint, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e392(v: &[Val]) -> Vec<u8> { c6::functions::fun4::encode_input(arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Hash>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<bool>(v, 7), arg::<String>(v, 8)) }
fn d392(d: &[u8], t: &[Ty]) -> Out { u392(c6::functions::fun4::decode_output(d), t) }
fn k392(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun4::call(arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Hash>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<bool>(v, 7), arg::<String>(v, 8)); (i, u392(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u393(r: ethabi::Result<(String, String, String, String, String, String, String, String, String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e393(v: &[Val]) -> Vec<u8> { c6::functions::fun5::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)) }
fn d393(d: &[u8], t: &[Ty]) -> Out { u393(c6::functions::fun5::decode_output(d), t) }
fn k393(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::fun5::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)); (i, u393(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u394(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e394(v: &[Val]) -> Vec<u8> { c6::functions::transfer_from::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1)) }
fn d394(d: &[u8], t: &[Ty]) -> Out { u394(c6::functions::transfer_from::decode_output(d), t) }
fn k394(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::transfer_from::call(arg::<Address>(v, 0), arg::<Address>(v, 1)); (i, u394(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u395(r: ethabi::Result<()>, t: &[Ty]) -> Out { r.map(|()| vec![]).map_err(|e| e.to_string()) }
fn e395(v: &[Val]) -> Vec<u8> { c6::functions::no_names::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d395(d: &[u8], t: &[Ty]) -> Out { u395(c6::functions::no_names::decode_output(d), t) }
fn k395(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::no_names::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u395(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u396(r: ethabi::Result<()>, t: &[Ty]) -> Out { r.map(|()| vec![]).map_err(|e| e.to_string()) }
fn e396(v: &[Val]) -> Vec<u8> { c6::functions::mixed_names::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)) }
fn d396(d: &[u8], t: &[Ty]) -> Out { u396(c6::functions::mixed_names::decode_output(d), t) }
fn k396(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::mixed_names::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2)); (i, u396(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u397(r: ethabi::Result<()>, t: &[Ty]) -> Out { r.map(|()| vec![]).map_err(|e| e.to_string()) }
fn e397(v: &[Val]) -> Vec<u8> { c6::functions::upper_case_name::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d397(d: &[u8], t: &[Ty]) -> Out { u397(c6::functions::upper_case_name::decode_output(d), t) }
fn k397(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::upper_case_name::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u397(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u398(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e398(v: &[Val]) -> Vec<u8> { c6::functions::set_url2::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1)) }
fn d398(d: &[u8], t: &[Ty]) -> Out { u398(c6::functions::set_url2::decode_output(d), t) }
fn k398(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::set_url2::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1)); (i, u398(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u399(r: ethabi::Result<Uint>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e399(v: &[Val]) -> Vec<u8> { c6::functions::snake_case_name::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<u8>>(v, 2)) }
fn d399(d: &[u8], t: &[Ty]) -> Out { u399(c6::functions::snake_case_name::decode_output(d), t) }
fn k399(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c6::functions::snake_case_name::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<u8>>(v, 2)); (i, u399(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u400(r: ethabi::Result<(Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e400(v: &[Val]) -> Vec<u8> { c7::functions::fun0::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d400(d: &[u8], t: &[Ty]) -> Out { u400(c7::functions::fun0::decode_output(d), t) }
fn k400(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun0::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u400(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u401(r: ethabi::Result<(Uint, Uint, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e401(v: &[Val]) -> Vec<u8> { c7::functions::fun1::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d401(d: &[u8], t: &[Ty]) -> Out { u401(c7::functions::fun1::decode_output(d), t) }
fn k401(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun1::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u401(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u402(r: ethabi::Result<(Uint, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e402(v: &[Val]) -> Vec<u8> { c7::functions::fun2::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d402(d: &[u8], t: &[Ty]) -> Out { u402(c7::functions::fun2::decode_output(d), t) }
fn k402(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun2::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u402(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u403(r: ethabi::Result<(Uint, Uint, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e403(v: &[Val]) -> Vec<u8> { c7::functions::fun3::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d403(d: &[u8], t: &[Ty]) -> Out { u403(c7::functions::fun3::decode_output(d), t) }
fn k403(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun3::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u403(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u404(r: ethabi::Result<(Uint, Uint, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e404(v: &[Val]) -> Vec<u8> { c7::functions::fun4::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d404(d: &[u8], t: &[Ty]) -> Out { u404(c7::functions::fun4::decode_output(d), t) }
fn k404(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun4::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u404(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u405(r: ethabi::Result<(Uint, Uint, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e405(v: &[Val]) -> Vec<u8> { c7::functions::fun5::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d405(d: &[u8], t: &[Ty]) -> Out { u405(c7::functions::fun5::decode_output(d), t) }
fn k405(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun5::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u405(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u406(r: ethabi::Result<(Uint, Uint, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e406(v: &[Val]) -> Vec<u8> { c7::functions::fun6::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d406(d: &[u8], t: &[Ty]) -> Out { u406(c7::functions::fun6::decode_output(d), t) }
fn k406(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun6::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u406(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u407(r: ethabi::Result<(Uint, Uint, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e407(v: &[Val]) -> Vec<u8> { c7::functions::fun7::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d407(d: &[u8], t: &[Ty]) -> Out { u407(c7::functions::fun7::decode_output(d), t) }
fn k407(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun7::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u407(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u408(r: ethabi::Result<(Uint, Uint, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e408(v: &[Val]) -> Vec<u8> { c7::functions::fun8::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d408(d: &[u8], t: &[Ty]) -> Out { u408(c7::functions::fun8::decode_output(d), t) }
fn k408(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun8::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u408(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u409(r: ethabi::Result<(Uint, String, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e409(v: &[Val]) -> Vec<u8> { c7::functions::fun9::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d409(d: &[u8], t: &[Ty]) -> Out { u409(c7::functions::fun9::decode_output(d), t) }
fn k409(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun9::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u409(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u410(r: ethabi::Result<(Uint, String, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e410(v: &[Val]) -> Vec<u8> { c7::functions::fun10::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d410(d: &[u8], t: &[Ty]) -> Out { u410(c7::functions::fun10::decode_output(d), t) }
fn k410(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun10::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u410(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u411(r: ethabi::Result<(Uint, String, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e411(v: &[Val]) -> Vec<u8> { c7::functions::fun11::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d411(d: &[u8], t: &[Ty]) -> Out { u411(c7::functions::fun11::decode_output(d), t) }
fn k411(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun11::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u411(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u412(r: ethabi::Result<(Uint, String, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e412(v: &[Val]) -> Vec<u8> { c7::functions::fun12::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d412(d: &[u8], t: &[Ty]) -> Out { u412(c7::functions::fun12::decode_output(d), t) }
fn k412(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun12::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u412(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u413(r: ethabi::Result<(Uint, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e413(v: &[Val]) -> Vec<u8> { c7::functions::fun13::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d413(d: &[u8], t: &[Ty]) -> Out { u413(c7::functions::fun13::decode_output(d), t) }
fn k413(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun13::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u413(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u414(r: ethabi::Result<(Uint, String, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e414(v: &[Val]) -> Vec<u8> { c7::functions::fun14::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d414(d: &[u8], t: &[Ty]) -> Out { u414(c7::functions::fun14::decode_output(d), t) }
fn k414(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun14::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u414(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u415(r: ethabi::Result<(Uint, String, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e415(v: &[Val]) -> Vec<u8> { c7::functions::fun15::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d415(d: &[u8], t: &[Ty]) -> Out { u415(c7::functions::fun15::decode_output(d), t) }
fn k415(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun15::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u415(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u416(r: ethabi::Result<(Uint, String, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e416(v: &[Val]) -> Vec<u8> { c7::functions::fun16::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d416(d: &[u8], t: &[Ty]) -> Out { u416(c7::functions::fun16::decode_output(d), t) }
fn k416(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun16::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u416(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u417(r: ethabi::Result<(Uint, String, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e417(v: &[Val]) -> Vec<u8> { c7::functions::fun17::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d417(d: &[u8], t: &[Ty]) -> Out { u417(c7::functions::fun17::decode_output(d), t) }
fn k417(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun17::call(arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u417(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u418(r: ethabi::Result<(Uint, bool, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e418(v: &[Val]) -> Vec<u8> { c7::functions::fun18::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d418(d: &[u8], t: &[Ty]) -> Out { u418(c7::functions::fun18::decode_output(d), t) }
fn k418(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun18::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u418(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u419(r: ethabi::Result<(Uint, bool, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e419(v: &[Val]) -> Vec<u8> { c7::functions::fun19::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d419(d: &[u8], t: &[Ty]) -> Out { u419(c7::functions::fun19::decode_output(d), t) }
fn k419(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun19::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u419(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u420(r: ethabi::Result<(Uint, bool, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e420(v: &[Val]) -> Vec<u8> { c7::functions::fun20::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d420(d: &[u8], t: &[Ty]) -> Out { u420(c7::functions::fun20::decode_output(d), t) }
fn k420(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun20::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u420(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u421(r: ethabi::Result<(Uint, bool, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e421(v: &[Val]) -> Vec<u8> { c7::functions::fun21::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d421(d: &[u8], t: &[Ty]) -> Out { u421(c7::functions::fun21::decode_output(d), t) }
fn k421(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun21::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u421(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u422(r: ethabi::Result<(Uint, bool, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e422(v: &[Val]) -> Vec<u8> { c7::functions::fun22::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d422(d: &[u8], t: &[Ty]) -> Out { u422(c7::functions::fun22::decode_output(d), t) }
fn k422(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun22::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u422(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u423(r: ethabi::Result<(Uint, bool, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e423(v: &[Val]) -> Vec<u8> { c7::functions::fun23::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d423(d: &[u8], t: &[Ty]) -> Out { u423(c7::functions::fun23::decode_output(d), t) }
fn k423(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun23::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u423(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u424(r: ethabi::Result<(Uint, bool, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e424(v: &[Val]) -> Vec<u8> { c7::functions::fun24::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d424(d: &[u8], t: &[Ty]) -> Out { u424(c7::functions::fun24::decode_output(d), t) }
fn k424(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun24::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u424(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u425(r: ethabi::Result<(Uint, bool, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e425(v: &[Val]) -> Vec<u8> { c7::functions::fun25::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d425(d: &[u8], t: &[Ty]) -> Out { u425(c7::functions::fun25::decode_output(d), t) }
fn k425(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun25::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u425(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u426(r: ethabi::Result<(Uint, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e426(v: &[Val]) -> Vec<u8> { c7::functions::fun26::encode_input(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d426(d: &[u8], t: &[Ty]) -> Out { u426(c7::functions::fun26::decode_output(d), t) }
fn k426(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun26::call(arg::<Uint>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u426(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u427(r: ethabi::Result<(String, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e427(v: &[Val]) -> Vec<u8> { c7::functions::fun27::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d427(d: &[u8], t: &[Ty]) -> Out { u427(c7::functions::fun27::decode_output(d), t) }
fn k427(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun27::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u427(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u428(r: ethabi::Result<(String, Uint, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e428(v: &[Val]) -> Vec<u8> { c7::functions::fun28::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d428(d: &[u8], t: &[Ty]) -> Out { u428(c7::functions::fun28::decode_output(d), t) }
fn k428(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun28::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u428(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u429(r: ethabi::Result<(String, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e429(v: &[Val]) -> Vec<u8> { c7::functions::fun29::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d429(d: &[u8], t: &[Ty]) -> Out { u429(c7::functions::fun29::decode_output(d), t) }
fn k429(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun29::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u429(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u430(r: ethabi::Result<(String, Uint, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e430(v: &[Val]) -> Vec<u8> { c7::functions::fun30::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d430(d: &[u8], t: &[Ty]) -> Out { u430(c7::functions::fun30::decode_output(d), t) }
fn k430(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun30::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u430(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u431(r: ethabi::Result<(String, Uint, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e431(v: &[Val]) -> Vec<u8> { c7::functions::fun31::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d431(d: &[u8], t: &[Ty]) -> Out { u431(c7::functions::fun31::decode_output(d), t) }
fn k431(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun31::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u431(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u432(r: ethabi::Result<(String, Uint, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e432(v: &[Val]) -> Vec<u8> { c7::functions::fun32::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d432(d: &[u8], t: &[Ty]) -> Out { u432(c7::functions::fun32::decode_output(d), t) }
fn k432(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun32::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u432(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u433(r: ethabi::Result<(String, Uint, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e433(v: &[Val]) -> Vec<u8> { c7::functions::fun33::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d433(d: &[u8], t: &[Ty]) -> Out { u433(c7::functions::fun33::decode_output(d), t) }
fn k433(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun33::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u433(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u434(r: ethabi::Result<(String, Uint, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e434(v: &[Val]) -> Vec<u8> { c7::functions::fun34::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d434(d: &[u8], t: &[Ty]) -> Out { u434(c7::functions::fun34::decode_output(d), t) }
fn k434(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun34::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u434(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u435(r: ethabi::Result<(String, Uint, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e435(v: &[Val]) -> Vec<u8> { c7::functions::fun35::encode_input(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d435(d: &[u8], t: &[Ty]) -> Out { u435(c7::functions::fun35::decode_output(d), t) }
fn k435(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun35::call(arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u435(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u436(r: ethabi::Result<(String, String, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e436(v: &[Val]) -> Vec<u8> { c7::functions::fun36::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d436(d: &[u8], t: &[Ty]) -> Out { u436(c7::functions::fun36::decode_output(d), t) }
fn k436(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun36::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u436(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u437(r: ethabi::Result<(String, String, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e437(v: &[Val]) -> Vec<u8> { c7::functions::fun37::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d437(d: &[u8], t: &[Ty]) -> Out { u437(c7::functions::fun37::decode_output(d), t) }
fn k437(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun37::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u437(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u438(r: ethabi::Result<(String, String, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e438(v: &[Val]) -> Vec<u8> { c7::functions::fun38::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d438(d: &[u8], t: &[Ty]) -> Out { u438(c7::functions::fun38::decode_output(d), t) }
fn k438(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun38::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u438(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u439(r: ethabi::Result<(String, String, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e439(v: &[Val]) -> Vec<u8> { c7::functions::fun39::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d439(d: &[u8], t: &[Ty]) -> Out { u439(c7::functions::fun39::decode_output(d), t) }
fn k439(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun39::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u439(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u440(r: ethabi::Result<(String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e440(v: &[Val]) -> Vec<u8> { c7::functions::fun40::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d440(d: &[u8], t: &[Ty]) -> Out { u440(c7::functions::fun40::decode_output(d), t) }
fn k440(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun40::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u440(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u441(r: ethabi::Result<(String, String, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e441(v: &[Val]) -> Vec<u8> { c7::functions::fun41::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d441(d: &[u8], t: &[Ty]) -> Out { u441(c7::functions::fun41::decode_output(d), t) }
fn k441(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun41::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u441(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u442(r: ethabi::Result<(String, String, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e442(v: &[Val]) -> Vec<u8> { c7::functions::fun42::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d442(d: &[u8], t: &[Ty]) -> Out { u442(c7::functions::fun42::decode_output(d), t) }
fn k442(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun42::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u442(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u443(r: ethabi::Result<(String, String, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e443(v: &[Val]) -> Vec<u8> { c7::functions::fun43::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d443(d: &[u8], t: &[Ty]) -> Out { u443(c7::functions::fun43::decode_output(d), t) }
fn k443(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun43::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u443(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u444(r: ethabi::Result<(String, String, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e444(v: &[Val]) -> Vec<u8> { c7::functions::fun44::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d444(d: &[u8], t: &[Ty]) -> Out { u444(c7::functions::fun44::decode_output(d), t) }
fn k444(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun44::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u444(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u445(r: ethabi::Result<(String, bool, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e445(v: &[Val]) -> Vec<u8> { c7::functions::fun45::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d445(d: &[u8], t: &[Ty]) -> Out { u445(c7::functions::fun45::decode_output(d), t) }
fn k445(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun45::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u445(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u446(r: ethabi::Result<(String, bool, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e446(v: &[Val]) -> Vec<u8> { c7::functions::fun46::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d446(d: &[u8], t: &[Ty]) -> Out { u446(c7::functions::fun46::decode_output(d), t) }
fn k446(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun46::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u446(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u447(r: ethabi::Result<(String, bool, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e447(v: &[Val]) -> Vec<u8> { c7::functions::fun47::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d447(d: &[u8], t: &[Ty]) -> Out { u447(c7::functions::fun47::decode_output(d), t) }
fn k447(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun47::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u447(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u448(r: ethabi::Result<(String, bool, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e448(v: &[Val]) -> Vec<u8> { c7::functions::fun48::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d448(d: &[u8], t: &[Ty]) -> Out { u448(c7::functions::fun48::decode_output(d), t) }
fn k448(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun48::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u448(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u449(r: ethabi::Result<(String, bool, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e449(v: &[Val]) -> Vec<u8> { c7::functions::fun49::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d449(d: &[u8], t: &[Ty]) -> Out { u449(c7::functions::fun49::decode_output(d), t) }
fn k449(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun49::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u449(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u450(r: ethabi::Result<(String, bool, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e450(v: &[Val]) -> Vec<u8> { c7::functions::fun50::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d450(d: &[u8], t: &[Ty]) -> Out { u450(c7::functions::fun50::decode_output(d), t) }
fn k450(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun50::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u450(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u451(r: ethabi::Result<(String, bool, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e451(v: &[Val]) -> Vec<u8> { c7::functions::fun51::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d451(d: &[u8], t: &[Ty]) -> Out { u451(c7::functions::fun51::decode_output(d), t) }
fn k451(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun51::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u451(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u452(r: ethabi::Result<(String, bool, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e452(v: &[Val]) -> Vec<u8> { c7::functions::fun52::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d452(d: &[u8], t: &[Ty]) -> Out { u452(c7::functions::fun52::decode_output(d), t) }
fn k452(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun52::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u452(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u453(r: ethabi::Result<(String, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e453(v: &[Val]) -> Vec<u8> { c7::functions::fun53::encode_input(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d453(d: &[u8], t: &[Ty]) -> Out { u453(c7::functions::fun53::decode_output(d), t) }
fn k453(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun53::call(arg::<String>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u453(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u454(r: ethabi::Result<(bool, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e454(v: &[Val]) -> Vec<u8> { c7::functions::fun54::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d454(d: &[u8], t: &[Ty]) -> Out { u454(c7::functions::fun54::decode_output(d), t) }
fn k454(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun54::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u454(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u455(r: ethabi::Result<(bool, Uint, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e455(v: &[Val]) -> Vec<u8> { c7::functions::fun55::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d455(d: &[u8], t: &[Ty]) -> Out { u455(c7::functions::fun55::decode_output(d), t) }
fn k455(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun55::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u455(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u456(r: ethabi::Result<(bool, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e456(v: &[Val]) -> Vec<u8> { c7::functions::fun56::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d456(d: &[u8], t: &[Ty]) -> Out { u456(c7::functions::fun56::decode_output(d), t) }
fn k456(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun56::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u456(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u457(r: ethabi::Result<(bool, Uint, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e457(v: &[Val]) -> Vec<u8> { c7::functions::fun57::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d457(d: &[u8], t: &[Ty]) -> Out { u457(c7::functions::fun57::decode_output(d), t) }
fn k457(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun57::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u457(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u458(r: ethabi::Result<(bool, Uint, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e458(v: &[Val]) -> Vec<u8> { c7::functions::fun58::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d458(d: &[u8], t: &[Ty]) -> Out { u458(c7::functions::fun58::decode_output(d), t) }
fn k458(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun58::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u458(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u459(r: ethabi::Result<(bool, Uint, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e459(v: &[Val]) -> Vec<u8> { c7::functions::fun59::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d459(d: &[u8], t: &[Ty]) -> Out { u459(c7::functions::fun59::decode_output(d), t) }
fn k459(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun59::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u459(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u460(r: ethabi::Result<(bool, Uint, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e460(v: &[Val]) -> Vec<u8> { c7::functions::fun60::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d460(d: &[u8], t: &[Ty]) -> Out { u460(c7::functions::fun60::decode_output(d), t) }
fn k460(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun60::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u460(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u461(r: ethabi::Result<(bool, Uint, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e461(v: &[Val]) -> Vec<u8> { c7::functions::fun61::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d461(d: &[u8], t: &[Ty]) -> Out { u461(c7::functions::fun61::decode_output(d), t) }
fn k461(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun61::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u461(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u462(r: ethabi::Result<(bool, Uint, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e462(v: &[Val]) -> Vec<u8> { c7::functions::fun62::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d462(d: &[u8], t: &[Ty]) -> Out { u462(c7::functions::fun62::decode_output(d), t) }
fn k462(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun62::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u462(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u463(r: ethabi::Result<(bool, String, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e463(v: &[Val]) -> Vec<u8> { c7::functions::fun63::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d463(d: &[u8], t: &[Ty]) -> Out { u463(c7::functions::fun63::decode_output(d), t) }
fn k463(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun63::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u463(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u464(r: ethabi::Result<(bool, String, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e464(v: &[Val]) -> Vec<u8> { c7::functions::fun64::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d464(d: &[u8], t: &[Ty]) -> Out { u464(c7::functions::fun64::decode_output(d), t) }
fn k464(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun64::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u464(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u465(r: ethabi::Result<(bool, String, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e465(v: &[Val]) -> Vec<u8> { c7::functions::fun65::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d465(d: &[u8], t: &[Ty]) -> Out { u465(c7::functions::fun65::decode_output(d), t) }
fn k465(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun65::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u465(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u466(r: ethabi::Result<(bool, String, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e466(v: &[Val]) -> Vec<u8> { c7::functions::fun66::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d466(d: &[u8], t: &[Ty]) -> Out { u466(c7::functions::fun66::decode_output(d), t) }
fn k466(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun66::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u466(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u467(r: ethabi::Result<(bool, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e467(v: &[Val]) -> Vec<u8> { c7::functions::fun67::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d467(d: &[u8], t: &[Ty]) -> Out { u467(c7::functions::fun67::decode_output(d), t) }
fn k467(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun67::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u467(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u468(r: ethabi::Result<(bool, String, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e468(v: &[Val]) -> Vec<u8> { c7::functions::fun68::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d468(d: &[u8], t: &[Ty]) -> Out { u468(c7::functions::fun68::decode_output(d), t) }
fn k468(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun68::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u468(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u469(r: ethabi::Result<(bool, String, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e469(v: &[Val]) -> Vec<u8> { c7::functions::fun69::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d469(d: &[u8], t: &[Ty]) -> Out { u469(c7::functions::fun69::decode_output(d), t) }
fn k469(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun69::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u469(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u470(r: ethabi::Result<(bool, String, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e470(v: &[Val]) -> Vec<u8> { c7::functions::fun70::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d470(d: &[u8], t: &[Ty]) -> Out { u470(c7::functions::fun70::decode_output(d), t) }
fn k470(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun70::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u470(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u471(r: ethabi::Result<(bool, String, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e471(v: &[Val]) -> Vec<u8> { c7::functions::fun71::encode_input(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d471(d: &[u8], t: &[Ty]) -> Out { u471(c7::functions::fun71::decode_output(d), t) }
fn k471(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun71::call(arg::<bool>(v, 0), arg::<String>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u471(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u472(r: ethabi::Result<(bool, bool, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e472(v: &[Val]) -> Vec<u8> { c7::functions::fun72::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d472(d: &[u8], t: &[Ty]) -> Out { u472(c7::functions::fun72::decode_output(d), t) }
fn k472(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun72::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u472(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u473(r: ethabi::Result<(bool, bool, Uint, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e473(v: &[Val]) -> Vec<u8> { c7::functions::fun73::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn d473(d: &[u8], t: &[Ty]) -> Out { u473(c7::functions::fun73::decode_output(d), t) }
fn k473(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun73::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)); (i, u473(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u474(r: ethabi::Result<(bool, bool, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e474(v: &[Val]) -> Vec<u8> { c7::functions::fun74::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)) }
fn d474(d: &[u8], t: &[Ty]) -> Out { u474(c7::functions::fun74::decode_output(d), t) }
fn k474(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun74::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<bool>(v, 3)); (i, u474(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u475(r: ethabi::Result<(bool, bool, String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e475(v: &[Val]) -> Vec<u8> { c7::functions::fun75::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn d475(d: &[u8], t: &[Ty]) -> Out { u475(c7::functions::fun75::decode_output(d), t) }
fn k475(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun75::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)); (i, u475(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u476(r: ethabi::Result<(bool, bool, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e476(v: &[Val]) -> Vec<u8> { c7::functions::fun76::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d476(d: &[u8], t: &[Ty]) -> Out { u476(c7::functions::fun76::decode_output(d), t) }
fn k476(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun76::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u476(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u477(r: ethabi::Result<(bool, bool, String, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e477(v: &[Val]) -> Vec<u8> { c7::functions::fun77::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)) }
fn d477(d: &[u8], t: &[Ty]) -> Out { u477(c7::functions::fun77::decode_output(d), t) }
fn k477(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun77::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<String>(v, 2), arg::<bool>(v, 3)); (i, u477(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u478(r: ethabi::Result<(bool, bool, bool, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e478(v: &[Val]) -> Vec<u8> { c7::functions::fun78::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d478(d: &[u8], t: &[Ty]) -> Out { u478(c7::functions::fun78::decode_output(d), t) }
fn k478(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun78::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u478(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u479(r: ethabi::Result<(bool, bool, bool, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e479(v: &[Val]) -> Vec<u8> { c7::functions::fun79::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)) }
fn d479(d: &[u8], t: &[Ty]) -> Out { u479(c7::functions::fun79::decode_output(d), t) }
fn k479(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun79::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<String>(v, 3)); (i, u479(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u480(r: ethabi::Result<(bool, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e480(v: &[Val]) -> Vec<u8> { c7::functions::fun80::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d480(d: &[u8], t: &[Ty]) -> Out { u480(c7::functions::fun80::decode_output(d), t) }
fn k480(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c7::functions::fun80::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u480(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u481(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e481(v: &[Val]) -> Vec<u8> { c8::functions::fun0::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d481(d: &[u8], t: &[Ty]) -> Out { u481(c8::functions::fun0::decode_output(d), t) }
fn k481(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun0::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u481(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u482(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e482(v: &[Val]) -> Vec<u8> { c8::functions::fun1::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d482(d: &[u8], t: &[Ty]) -> Out { u482(c8::functions::fun1::decode_output(d), t) }
fn k482(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun1::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u482(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u483(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e483(v: &[Val]) -> Vec<u8> { c8::functions::fun2::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d483(d: &[u8], t: &[Ty]) -> Out { u483(c8::functions::fun2::decode_output(d), t) }
fn k483(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun2::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u483(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u484(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e484(v: &[Val]) -> Vec<u8> { c8::functions::fun3::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d484(d: &[u8], t: &[Ty]) -> Out { u484(c8::functions::fun3::decode_output(d), t) }
fn k484(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun3::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u484(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u485(r: ethabi::Result<([u8; 4], [u8; 4], Vec<u8>, [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e485(v: &[Val]) -> Vec<u8> { c8::functions::fun4::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d485(d: &[u8], t: &[Ty]) -> Out { u485(c8::functions::fun4::decode_output(d), t) }
fn k485(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun4::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u485(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u486(r: ethabi::Result<([u8; 4], [u8; 4], Vec<u8>, [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e486(v: &[Val]) -> Vec<u8> { c8::functions::fun5::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d486(d: &[u8], t: &[Ty]) -> Out { u486(c8::functions::fun5::decode_output(d), t) }
fn k486(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun5::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u486(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u487(r: ethabi::Result<([u8; 4], [u8; 4], Vec<u8>, Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e487(v: &[Val]) -> Vec<u8> { c8::functions::fun6::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d487(d: &[u8], t: &[Ty]) -> Out { u487(c8::functions::fun6::decode_output(d), t) }
fn k487(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun6::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u487(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u488(r: ethabi::Result<([u8; 4], [u8; 4], Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e488(v: &[Val]) -> Vec<u8> { c8::functions::fun7::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d488(d: &[u8], t: &[Ty]) -> Out { u488(c8::functions::fun7::decode_output(d), t) }
fn k488(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun7::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u488(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u489(r: ethabi::Result<([u8; 4], Vec<u8>, [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e489(v: &[Val]) -> Vec<u8> { c8::functions::fun8::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d489(d: &[u8], t: &[Ty]) -> Out { u489(c8::functions::fun8::decode_output(d), t) }
fn k489(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun8::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u489(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u490(r: ethabi::Result<([u8; 4], Vec<u8>, [u8; 4], [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e490(v: &[Val]) -> Vec<u8> { c8::functions::fun9::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d490(d: &[u8], t: &[Ty]) -> Out { u490(c8::functions::fun9::decode_output(d), t) }
fn k490(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun9::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u490(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u491(r: ethabi::Result<([u8; 4], Vec<u8>, [u8; 4], Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e491(v: &[Val]) -> Vec<u8> { c8::functions::fun10::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d491(d: &[u8], t: &[Ty]) -> Out { u491(c8::functions::fun10::decode_output(d), t) }
fn k491(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun10::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u491(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u492(r: ethabi::Result<([u8; 4], Vec<u8>, [u8; 4], Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e492(v: &[Val]) -> Vec<u8> { c8::functions::fun11::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d492(d: &[u8], t: &[Ty]) -> Out { u492(c8::functions::fun11::decode_output(d), t) }
fn k492(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun11::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u492(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u493(r: ethabi::Result<([u8; 4], Vec<u8>, Vec<u8>, [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e493(v: &[Val]) -> Vec<u8> { c8::functions::fun12::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d493(d: &[u8], t: &[Ty]) -> Out { u493(c8::functions::fun12::decode_output(d), t) }
fn k493(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun12::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u493(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u494(r: ethabi::Result<([u8; 4], Vec<u8>, Vec<u8>, [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e494(v: &[Val]) -> Vec<u8> { c8::functions::fun13::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d494(d: &[u8], t: &[Ty]) -> Out { u494(c8::functions::fun13::decode_output(d), t) }
fn k494(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun13::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u494(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u495(r: ethabi::Result<([u8; 4], Vec<u8>, Vec<u8>, Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e495(v: &[Val]) -> Vec<u8> { c8::functions::fun14::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d495(d: &[u8], t: &[Ty]) -> Out { u495(c8::functions::fun14::decode_output(d), t) }
fn k495(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun14::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u495(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u496(r: ethabi::Result<([u8; 4], Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e496(v: &[Val]) -> Vec<u8> { c8::functions::fun15::encode_input(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d496(d: &[u8], t: &[Ty]) -> Out { u496(c8::functions::fun15::decode_output(d), t) }
fn k496(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun15::call(arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u496(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u497(r: ethabi::Result<(Vec<u8>, [u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e497(v: &[Val]) -> Vec<u8> { c8::functions::fun16::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d497(d: &[u8], t: &[Ty]) -> Out { u497(c8::functions::fun16::decode_output(d), t) }
fn k497(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun16::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u497(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u498(r: ethabi::Result<(Vec<u8>, [u8; 4], [u8; 4], [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e498(v: &[Val]) -> Vec<u8> { c8::functions::fun17::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d498(d: &[u8], t: &[Ty]) -> Out { u498(c8::functions::fun17::decode_output(d), t) }
fn k498(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun17::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u498(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u499(r: ethabi::Result<(Vec<u8>, [u8; 4], [u8; 4], Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e499(v: &[Val]) -> Vec<u8> { c8::functions::fun18::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d499(d: &[u8], t: &[Ty]) -> Out { u499(c8::functions::fun18::decode_output(d), t) }
fn k499(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun18::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u499(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u500(r: ethabi::Result<(Vec<u8>, [u8; 4], [u8; 4], Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e500(v: &[Val]) -> Vec<u8> { c8::functions::fun19::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d500(d: &[u8], t: &[Ty]) -> Out { u500(c8::functions::fun19::decode_output(d), t) }
fn k500(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun19::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u500(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u501(r: ethabi::Result<(Vec<u8>, [u8; 4], Vec<u8>, [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e501(v: &[Val]) -> Vec<u8> { c8::functions::fun20::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d501(d: &[u8], t: &[Ty]) -> Out { u501(c8::functions::fun20::decode_output(d), t) }
fn k501(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun20::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u501(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u502(r: ethabi::Result<(Vec<u8>, [u8; 4], Vec<u8>, [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e502(v: &[Val]) -> Vec<u8> { c8::functions::fun21::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d502(d: &[u8], t: &[Ty]) -> Out { u502(c8::functions::fun21::decode_output(d), t) }
fn k502(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun21::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u502(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u503(r: ethabi::Result<(Vec<u8>, [u8; 4], Vec<u8>, Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e503(v: &[Val]) -> Vec<u8> { c8::functions::fun22::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d503(d: &[u8], t: &[Ty]) -> Out { u503(c8::functions::fun22::decode_output(d), t) }
fn k503(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun22::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u503(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u504(r: ethabi::Result<(Vec<u8>, [u8; 4], Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e504(v: &[Val]) -> Vec<u8> { c8::functions::fun23::encode_input(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d504(d: &[u8], t: &[Ty]) -> Out { u504(c8::functions::fun23::decode_output(d), t) }
fn k504(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun23::call(arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u504(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u505(r: ethabi::Result<(Vec<u8>, Vec<u8>, [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e505(v: &[Val]) -> Vec<u8> { c8::functions::fun24::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d505(d: &[u8], t: &[Ty]) -> Out { u505(c8::functions::fun24::decode_output(d), t) }
fn k505(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun24::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u505(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u506(r: ethabi::Result<(Vec<u8>, Vec<u8>, [u8; 4], [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e506(v: &[Val]) -> Vec<u8> { c8::functions::fun25::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d506(d: &[u8], t: &[Ty]) -> Out { u506(c8::functions::fun25::decode_output(d), t) }
fn k506(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun25::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u506(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u507(r: ethabi::Result<(Vec<u8>, Vec<u8>, [u8; 4], Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e507(v: &[Val]) -> Vec<u8> { c8::functions::fun26::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d507(d: &[u8], t: &[Ty]) -> Out { u507(c8::functions::fun26::decode_output(d), t) }
fn k507(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun26::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u507(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u508(r: ethabi::Result<(Vec<u8>, Vec<u8>, [u8; 4], Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e508(v: &[Val]) -> Vec<u8> { c8::functions::fun27::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d508(d: &[u8], t: &[Ty]) -> Out { u508(c8::functions::fun27::decode_output(d), t) }
fn k508(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun27::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<[u8; 4]>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u508(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u509(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e509(v: &[Val]) -> Vec<u8> { c8::functions::fun28::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d509(d: &[u8], t: &[Ty]) -> Out { u509(c8::functions::fun28::decode_output(d), t) }
fn k509(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun28::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u509(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u510(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, [u8; 4], Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e510(v: &[Val]) -> Vec<u8> { c8::functions::fun29::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d510(d: &[u8], t: &[Ty]) -> Out { u510(c8::functions::fun29::decode_output(d), t) }
fn k510(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun29::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u510(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u511(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e511(v: &[Val]) -> Vec<u8> { c8::functions::fun30::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d511(d: &[u8], t: &[Ty]) -> Out { u511(c8::functions::fun30::decode_output(d), t) }
fn k511(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun30::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u511(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u512(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e512(v: &[Val]) -> Vec<u8> { c8::functions::fun31::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d512(d: &[u8], t: &[Ty]) -> Out { u512(c8::functions::fun31::decode_output(d), t) }
fn k512(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c8::functions::fun31::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u512(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u513(r: ethabi::Result<(Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e513(v: &[Val]) -> Vec<u8> { c9::functions::fun0::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3)) }
fn d513(d: &[u8], t: &[Ty]) -> Out { u513(c9::functions::fun0::decode_output(d), t) }
fn k513(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun0::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3)); (i, u513(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u514(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e514(v: &[Val]) -> Vec<u8> { c9::functions::fun1::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3)) }
fn d514(d: &[u8], t: &[Ty]) -> Out { u514(c9::functions::fun1::decode_output(d), t) }
fn k514(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun1::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3)); (i, u514(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u515(r: ethabi::Result<(Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e515(v: &[Val]) -> Vec<u8> { c9::functions::fun2::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3)) }
fn d515(d: &[u8], t: &[Ty]) -> Out { u515(c9::functions::fun2::decode_output(d), t) }
fn k515(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun2::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3)); (i, u515(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u516(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e516(v: &[Val]) -> Vec<u8> { c9::functions::fun3::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3)) }
fn d516(d: &[u8], t: &[Ty]) -> Out { u516(c9::functions::fun3::decode_output(d), t) }
fn k516(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun3::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3)); (i, u516(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u517(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e517(v: &[Val]) -> Vec<u8> { c9::functions::fun4::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)) }
fn d517(d: &[u8], t: &[Ty]) -> Out { u517(c9::functions::fun4::decode_output(d), t) }
fn k517(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun4::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3)); (i, u517(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u518(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e518(v: &[Val]) -> Vec<u8> { c9::functions::fun5::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3)) }
fn d518(d: &[u8], t: &[Ty]) -> Out { u518(c9::functions::fun5::decode_output(d), t) }
fn k518(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun5::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3)); (i, u518(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u519(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e519(v: &[Val]) -> Vec<u8> { c9::functions::fun6::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3)) }
fn d519(d: &[u8], t: &[Ty]) -> Out { u519(c9::functions::fun6::decode_output(d), t) }
fn k519(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun6::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3)); (i, u519(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u520(r: ethabi::Result<([u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e520(v: &[Val]) -> Vec<u8> { c9::functions::fun7::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3)) }
fn d520(d: &[u8], t: &[Ty]) -> Out { u520(c9::functions::fun7::decode_output(d), t) }
fn k520(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun7::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3)); (i, u520(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u521(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e521(v: &[Val]) -> Vec<u8> { c9::functions::fun8::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3)) }
fn d521(d: &[u8], t: &[Ty]) -> Out { u521(c9::functions::fun8::decode_output(d), t) }
fn k521(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun8::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3)); (i, u521(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u522(r: ethabi::Result<(Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e522(v: &[Val]) -> Vec<u8> { c9::functions::fun9::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d522(d: &[u8], t: &[Ty]) -> Out { u522(c9::functions::fun9::decode_output(d), t) }
fn k522(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun9::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u522(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u523(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e523(v: &[Val]) -> Vec<u8> { c9::functions::fun10::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3)) }
fn d523(d: &[u8], t: &[Ty]) -> Out { u523(c9::functions::fun10::decode_output(d), t) }
fn k523(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun10::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3)); (i, u523(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u524(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e524(v: &[Val]) -> Vec<u8> { c9::functions::fun11::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3)) }
fn d524(d: &[u8], t: &[Ty]) -> Out { u524(c9::functions::fun11::decode_output(d), t) }
fn k524(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun11::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3)); (i, u524(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u525(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e525(v: &[Val]) -> Vec<u8> { c9::functions::fun12::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d525(d: &[u8], t: &[Ty]) -> Out { u525(c9::functions::fun12::decode_output(d), t) }
fn k525(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun12::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u525(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u526(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e526(v: &[Val]) -> Vec<u8> { c9::functions::fun13::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4)) }
fn d526(d: &[u8], t: &[Ty]) -> Out { u526(c9::functions::fun13::decode_output(d), t) }
fn k526(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun13::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4)); (i, u526(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u527(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e527(v: &[Val]) -> Vec<u8> { c9::functions::fun14::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4)) }
fn d527(d: &[u8], t: &[Ty]) -> Out { u527(c9::functions::fun14::decode_output(d), t) }
fn k527(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun14::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4)); (i, u527(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u528(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e528(v: &[Val]) -> Vec<u8> { c9::functions::fun15::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4)) }
fn d528(d: &[u8], t: &[Ty]) -> Out { u528(c9::functions::fun15::decode_output(d), t) }
fn k528(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun15::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4)); (i, u528(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u529(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e529(v: &[Val]) -> Vec<u8> { c9::functions::fun16::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)) }
fn d529(d: &[u8], t: &[Ty]) -> Out { u529(c9::functions::fun16::decode_output(d), t) }
fn k529(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun16::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)); (i, u529(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u530(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e530(v: &[Val]) -> Vec<u8> { c9::functions::fun17::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4)) }
fn d530(d: &[u8], t: &[Ty]) -> Out { u530(c9::functions::fun17::decode_output(d), t) }
fn k530(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun17::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4)); (i, u530(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u531(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e531(v: &[Val]) -> Vec<u8> { c9::functions::fun18::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4)) }
fn d531(d: &[u8], t: &[Ty]) -> Out { u531(c9::functions::fun18::decode_output(d), t) }
fn k531(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun18::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4)); (i, u531(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u532(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e532(v: &[Val]) -> Vec<u8> { c9::functions::fun19::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4)) }
fn d532(d: &[u8], t: &[Ty]) -> Out { u532(c9::functions::fun19::decode_output(d), t) }
fn k532(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun19::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4)); (i, u532(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u533(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e533(v: &[Val]) -> Vec<u8> { c9::functions::fun20::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4)) }
fn d533(d: &[u8], t: &[Ty]) -> Out { u533(c9::functions::fun20::decode_output(d), t) }
fn k533(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun20::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4)); (i, u533(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u534(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e534(v: &[Val]) -> Vec<u8> { c9::functions::fun21::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4)) }
fn d534(d: &[u8], t: &[Ty]) -> Out { u534(c9::functions::fun21::decode_output(d), t) }
fn k534(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun21::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4)); (i, u534(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u535(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e535(v: &[Val]) -> Vec<u8> { c9::functions::fun22::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4)) }
fn d535(d: &[u8], t: &[Ty]) -> Out { u535(c9::functions::fun22::decode_output(d), t) }
fn k535(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun22::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4)); (i, u535(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u536(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e536(v: &[Val]) -> Vec<u8> { c9::functions::fun23::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4)) }
fn d536(d: &[u8], t: &[Ty]) -> Out { u536(c9::functions::fun23::decode_output(d), t) }
fn k536(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun23::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4)); (i, u536(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u537(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e537(v: &[Val]) -> Vec<u8> { c9::functions::fun24::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5)) }
fn d537(d: &[u8], t: &[Ty]) -> Out { u537(c9::functions::fun24::decode_output(d), t) }
fn k537(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun24::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5)); (i, u537(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u538(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e538(v: &[Val]) -> Vec<u8> { c9::functions::fun25::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5)) }
fn d538(d: &[u8], t: &[Ty]) -> Out { u538(c9::functions::fun25::decode_output(d), t) }
fn k538(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun25::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5)); (i, u538(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u539(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e539(v: &[Val]) -> Vec<u8> { c9::functions::fun26::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5)) }
fn d539(d: &[u8], t: &[Ty]) -> Out { u539(c9::functions::fun26::decode_output(d), t) }
fn k539(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun26::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5)); (i, u539(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u540(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e540(v: &[Val]) -> Vec<u8> { c9::functions::fun27::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5)) }
fn d540(d: &[u8], t: &[Ty]) -> Out { u540(c9::functions::fun27::decode_output(d), t) }
fn k540(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun27::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5)); (i, u540(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u541(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e541(v: &[Val]) -> Vec<u8> { c9::functions::fun28::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5)) }
fn d541(d: &[u8], t: &[Ty]) -> Out { u541(c9::functions::fun28::decode_output(d), t) }
fn k541(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun28::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5)); (i, u541(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u542(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e542(v: &[Val]) -> Vec<u8> { c9::functions::fun29::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5)) }
fn d542(d: &[u8], t: &[Ty]) -> Out { u542(c9::functions::fun29::decode_output(d), t) }
fn k542(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun29::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5)); (i, u542(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u543(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e543(v: &[Val]) -> Vec<u8> { c9::functions::fun30::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5)) }
fn d543(d: &[u8], t: &[Ty]) -> Out { u543(c9::functions::fun30::decode_output(d), t) }
fn k543(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun30::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5)); (i, u543(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u544(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e544(v: &[Val]) -> Vec<u8> { c9::functions::fun31::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5)) }
fn d544(d: &[u8], t: &[Ty]) -> Out { u544(c9::functions::fun31::decode_output(d), t) }
fn k544(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun31::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5)); (i, u544(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u545(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e545(v: &[Val]) -> Vec<u8> { c9::functions::fun32::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5)) }
fn d545(d: &[u8], t: &[Ty]) -> Out { u545(c9::functions::fun32::decode_output(d), t) }
fn k545(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun32::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5)); (i, u545(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u546(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e546(v: &[Val]) -> Vec<u8> { c9::functions::fun33::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5)) }
fn d546(d: &[u8], t: &[Ty]) -> Out { u546(c9::functions::fun33::decode_output(d), t) }
fn k546(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun33::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5)); (i, u546(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u547(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e547(v: &[Val]) -> Vec<u8> { c9::functions::fun34::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5)) }
fn d547(d: &[u8], t: &[Ty]) -> Out { u547(c9::functions::fun34::decode_output(d), t) }
fn k547(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun34::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5)); (i, u547(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u548(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5])]).map_err(|e| e.to_string()) }
fn e548(v: &[Val]) -> Vec<u8> { c9::functions::fun35::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5)) }
fn d548(d: &[u8], t: &[Ty]) -> Out { u548(c9::functions::fun35::decode_output(d), t) }
fn k548(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun35::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5)); (i, u548(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u549(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e549(v: &[Val]) -> Vec<u8> { c9::functions::fun36::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6)) }
fn d549(d: &[u8], t: &[Ty]) -> Out { u549(c9::functions::fun36::decode_output(d), t) }
fn k549(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun36::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6)); (i, u549(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u550(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e550(v: &[Val]) -> Vec<u8> { c9::functions::fun37::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6)) }
fn d550(d: &[u8], t: &[Ty]) -> Out { u550(c9::functions::fun37::decode_output(d), t) }
fn k550(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun37::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6)); (i, u550(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u551(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e551(v: &[Val]) -> Vec<u8> { c9::functions::fun38::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6)) }
fn d551(d: &[u8], t: &[Ty]) -> Out { u551(c9::functions::fun38::decode_output(d), t) }
fn k551(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun38::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6)); (i, u551(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u552(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e552(v: &[Val]) -> Vec<u8> { c9::functions::fun39::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6)) }
fn d552(d: &[u8], t: &[Ty]) -> Out { u552(c9::functions::fun39::decode_output(d), t) }
fn k552(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun39::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6)); (i, u552(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u553(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e553(v: &[Val]) -> Vec<u8> { c9::functions::fun40::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6)) }
fn d553(d: &[u8], t: &[Ty]) -> Out { u553(c9::functions::fun40::decode_output(d), t) }
fn k553(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun40::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6)); (i, u553(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u554(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e554(v: &[Val]) -> Vec<u8> { c9::functions::fun41::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6)) }
fn d554(d: &[u8], t: &[Ty]) -> Out { u554(c9::functions::fun41::decode_output(d), t) }
fn k554(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun41::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6)); (i, u554(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u555(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e555(v: &[Val]) -> Vec<u8> { c9::functions::fun42::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)) }
fn d555(d: &[u8], t: &[Ty]) -> Out { u555(c9::functions::fun42::decode_output(d), t) }
fn k555(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun42::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)); (i, u555(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u556(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e556(v: &[Val]) -> Vec<u8> { c9::functions::fun43::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6)) }
fn d556(d: &[u8], t: &[Ty]) -> Out { u556(c9::functions::fun43::decode_output(d), t) }
fn k556(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun43::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6)); (i, u556(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u557(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e557(v: &[Val]) -> Vec<u8> { c9::functions::fun44::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6)) }
fn d557(d: &[u8], t: &[Ty]) -> Out { u557(c9::functions::fun44::decode_output(d), t) }
fn k557(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun44::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6)); (i, u557(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u558(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e558(v: &[Val]) -> Vec<u8> { c9::functions::fun45::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6)) }
fn d558(d: &[u8], t: &[Ty]) -> Out { u558(c9::functions::fun45::decode_output(d), t) }
fn k558(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun45::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6)); (i, u558(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u559(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e559(v: &[Val]) -> Vec<u8> { c9::functions::fun46::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6)) }
fn d559(d: &[u8], t: &[Ty]) -> Out { u559(c9::functions::fun46::decode_output(d), t) }
fn k559(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun46::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6)); (i, u559(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u560(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e560(v: &[Val]) -> Vec<u8> { c9::functions::fun47::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6)) }
fn d560(d: &[u8], t: &[Ty]) -> Out { u560(c9::functions::fun47::decode_output(d), t) }
fn k560(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun47::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6)); (i, u560(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u561(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e561(v: &[Val]) -> Vec<u8> { c9::functions::fun48::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7)) }
fn d561(d: &[u8], t: &[Ty]) -> Out { u561(c9::functions::fun48::decode_output(d), t) }
fn k561(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun48::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7)); (i, u561(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u562(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e562(v: &[Val]) -> Vec<u8> { c9::functions::fun49::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7)) }
fn d562(d: &[u8], t: &[Ty]) -> Out { u562(c9::functions::fun49::decode_output(d), t) }
fn k562(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun49::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7)); (i, u562(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u563(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e563(v: &[Val]) -> Vec<u8> { c9::functions::fun50::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7)) }
fn d563(d: &[u8], t: &[Ty]) -> Out { u563(c9::functions::fun50::decode_output(d), t) }
fn k563(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun50::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7)); (i, u563(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u564(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e564(v: &[Val]) -> Vec<u8> { c9::functions::fun51::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7)) }
fn d564(d: &[u8], t: &[Ty]) -> Out { u564(c9::functions::fun51::decode_output(d), t) }
fn k564(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun51::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7)); (i, u564(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u565(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e565(v: &[Val]) -> Vec<u8> { c9::functions::fun52::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7)) }
fn d565(d: &[u8], t: &[Ty]) -> Out { u565(c9::functions::fun52::decode_output(d), t) }
fn k565(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun52::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7)); (i, u565(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u566(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e566(v: &[Val]) -> Vec<u8> { c9::functions::fun53::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7)) }
fn d566(d: &[u8], t: &[Ty]) -> Out { u566(c9::functions::fun53::decode_output(d), t) }
fn k566(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun53::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7)); (i, u566(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u567(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e567(v: &[Val]) -> Vec<u8> { c9::functions::fun54::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7)) }
fn d567(d: &[u8], t: &[Ty]) -> Out { u567(c9::functions::fun54::decode_output(d), t) }
fn k567(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun54::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7)); (i, u567(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u568(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e568(v: &[Val]) -> Vec<u8> { c9::functions::fun55::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7)) }
fn d568(d: &[u8], t: &[Ty]) -> Out { u568(c9::functions::fun55::decode_output(d), t) }
fn k568(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun55::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7)); (i, u568(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u569(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e569(v: &[Val]) -> Vec<u8> { c9::functions::fun56::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7)) }
fn d569(d: &[u8], t: &[Ty]) -> Out { u569(c9::functions::fun56::decode_output(d), t) }
fn k569(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun56::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7)); (i, u569(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u570(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e570(v: &[Val]) -> Vec<u8> { c9::functions::fun57::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7)) }
fn d570(d: &[u8], t: &[Ty]) -> Out { u570(c9::functions::fun57::decode_output(d), t) }
fn k570(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun57::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7)); (i, u570(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u571(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e571(v: &[Val]) -> Vec<u8> { c9::functions::fun58::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7)) }
fn d571(d: &[u8], t: &[Ty]) -> Out { u571(c9::functions::fun58::decode_output(d), t) }
fn k571(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun58::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7)); (i, u571(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u572(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7])]).map_err(|e| e.to_string()) }
fn e572(v: &[Val]) -> Vec<u8> { c9::functions::fun59::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7)) }
fn d572(d: &[u8], t: &[Ty]) -> Out { u572(c9::functions::fun59::decode_output(d), t) }
fn k572(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun59::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7)); (i, u572(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u573(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e573(v: &[Val]) -> Vec<u8> { c9::functions::fun60::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8)) }
fn d573(d: &[u8], t: &[Ty]) -> Out { u573(c9::functions::fun60::decode_output(d), t) }
fn k573(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun60::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8)); (i, u573(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u574(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e574(v: &[Val]) -> Vec<u8> { c9::functions::fun61::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8)) }
fn d574(d: &[u8], t: &[Ty]) -> Out { u574(c9::functions::fun61::decode_output(d), t) }
fn k574(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun61::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8)); (i, u574(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u575(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e575(v: &[Val]) -> Vec<u8> { c9::functions::fun62::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8)) }
fn d575(d: &[u8], t: &[Ty]) -> Out { u575(c9::functions::fun62::decode_output(d), t) }
fn k575(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun62::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8)); (i, u575(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u576(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e576(v: &[Val]) -> Vec<u8> { c9::functions::fun63::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8)) }
fn d576(d: &[u8], t: &[Ty]) -> Out { u576(c9::functions::fun63::decode_output(d), t) }
fn k576(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun63::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8)); (i, u576(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u577(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e577(v: &[Val]) -> Vec<u8> { c9::functions::fun64::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8)) }
fn d577(d: &[u8], t: &[Ty]) -> Out { u577(c9::functions::fun64::decode_output(d), t) }
fn k577(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun64::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8)); (i, u577(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u578(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e578(v: &[Val]) -> Vec<u8> { c9::functions::fun65::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8)) }
fn d578(d: &[u8], t: &[Ty]) -> Out { u578(c9::functions::fun65::decode_output(d), t) }
fn k578(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun65::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8)); (i, u578(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u579(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e579(v: &[Val]) -> Vec<u8> { c9::functions::fun66::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8)) }
fn d579(d: &[u8], t: &[Ty]) -> Out { u579(c9::functions::fun66::decode_output(d), t) }
fn k579(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun66::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8)); (i, u579(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u580(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e580(v: &[Val]) -> Vec<u8> { c9::functions::fun67::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8)) }
fn d580(d: &[u8], t: &[Ty]) -> Out { u580(c9::functions::fun67::decode_output(d), t) }
fn k580(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun67::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8)); (i, u580(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u581(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e581(v: &[Val]) -> Vec<u8> { c9::functions::fun68::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8)) }
fn d581(d: &[u8], t: &[Ty]) -> Out { u581(c9::functions::fun68::decode_output(d), t) }
fn k581(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun68::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8)); (i, u581(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u582(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e582(v: &[Val]) -> Vec<u8> { c9::functions::fun69::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8)) }
fn d582(d: &[u8], t: &[Ty]) -> Out { u582(c9::functions::fun69::decode_output(d), t) }
fn k582(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun69::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8)); (i, u582(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u583(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e583(v: &[Val]) -> Vec<u8> { c9::functions::fun70::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8)) }
fn d583(d: &[u8], t: &[Ty]) -> Out { u583(c9::functions::fun70::decode_output(d), t) }
fn k583(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun70::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8)); (i, u583(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u584(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8])]).map_err(|e| e.to_string()) }
fn e584(v: &[Val]) -> Vec<u8> { c9::functions::fun71::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8)) }
fn d584(d: &[u8], t: &[Ty]) -> Out { u584(c9::functions::fun71::decode_output(d), t) }
fn k584(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun71::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8)); (i, u584(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u585(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e585(v: &[Val]) -> Vec<u8> { c9::functions::fun72::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9)) }
fn d585(d: &[u8], t: &[Ty]) -> Out { u585(c9::functions::fun72::decode_output(d), t) }
fn k585(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun72::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9)); (i, u585(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u586(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e586(v: &[Val]) -> Vec<u8> { c9::functions::fun73::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9)) }
fn d586(d: &[u8], t: &[Ty]) -> Out { u586(c9::functions::fun73::decode_output(d), t) }
fn k586(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun73::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9)); (i, u586(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u587(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e587(v: &[Val]) -> Vec<u8> { c9::functions::fun74::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9)) }
fn d587(d: &[u8], t: &[Ty]) -> Out { u587(c9::functions::fun74::decode_output(d), t) }
fn k587(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun74::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9)); (i, u587(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u588(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e588(v: &[Val]) -> Vec<u8> { c9::functions::fun75::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9)) }
fn d588(d: &[u8], t: &[Ty]) -> Out { u588(c9::functions::fun75::decode_output(d), t) }
fn k588(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun75::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9)); (i, u588(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u589(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e589(v: &[Val]) -> Vec<u8> { c9::functions::fun76::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9)) }
fn d589(d: &[u8], t: &[Ty]) -> Out { u589(c9::functions::fun76::decode_output(d), t) }
fn k589(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun76::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9)); (i, u589(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u590(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e590(v: &[Val]) -> Vec<u8> { c9::functions::fun77::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9)) }
fn d590(d: &[u8], t: &[Ty]) -> Out { u590(c9::functions::fun77::decode_output(d), t) }
fn k590(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun77::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9)); (i, u590(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u591(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e591(v: &[Val]) -> Vec<u8> { c9::functions::fun78::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9)) }
fn d591(d: &[u8], t: &[Ty]) -> Out { u591(c9::functions::fun78::decode_output(d), t) }
fn k591(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun78::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9)); (i, u591(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u592(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e592(v: &[Val]) -> Vec<u8> { c9::functions::fun79::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9)) }
fn d592(d: &[u8], t: &[Ty]) -> Out { u592(c9::functions::fun79::decode_output(d), t) }
fn k592(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun79::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9)); (i, u592(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u593(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e593(v: &[Val]) -> Vec<u8> { c9::functions::fun80::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9)) }
fn d593(d: &[u8], t: &[Ty]) -> Out { u593(c9::functions::fun80::decode_output(d), t) }
fn k593(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun80::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9)); (i, u593(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u594(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e594(v: &[Val]) -> Vec<u8> { c9::functions::fun81::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9)) }
fn d594(d: &[u8], t: &[Ty]) -> Out { u594(c9::functions::fun81::decode_output(d), t) }
fn k594(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun81::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9)); (i, u594(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u595(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e595(v: &[Val]) -> Vec<u8> { c9::functions::fun82::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9)) }
fn d595(d: &[u8], t: &[Ty]) -> Out { u595(c9::functions::fun82::decode_output(d), t) }
fn k595(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun82::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9)); (i, u595(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u596(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9])]).map_err(|e| e.to_string()) }
fn e596(v: &[Val]) -> Vec<u8> { c9::functions::fun83::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9)) }
fn d596(d: &[u8], t: &[Ty]) -> Out { u596(c9::functions::fun83::decode_output(d), t) }
fn k596(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun83::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9)); (i, u596(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u597(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e597(v: &[Val]) -> Vec<u8> { c9::functions::fun84::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9), arg::<bool>(v, 10)) }
fn d597(d: &[u8], t: &[Ty]) -> Out { u597(c9::functions::fun84::decode_output(d), t) }
fn k597(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun84::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9), arg::<bool>(v, 10)); (i, u597(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u598(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e598(v: &[Val]) -> Vec<u8> { c9::functions::fun85::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9), arg::<Hash>(v, 10)) }
fn d598(d: &[u8], t: &[Ty]) -> Out { u598(c9::functions::fun85::decode_output(d), t) }
fn k598(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun85::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9), arg::<Hash>(v, 10)); (i, u598(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u599(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e599(v: &[Val]) -> Vec<u8> { c9::functions::fun86::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9), arg::<[Uint; 2]>(v, 10)) }
fn d599(d: &[u8], t: &[Ty]) -> Out { u599(c9::functions::fun86::decode_output(d), t) }
fn k599(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun86::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9), arg::<[Uint; 2]>(v, 10)); (i, u599(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u600(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e600(v: &[Val]) -> Vec<u8> { c9::functions::fun87::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Address>(v, 10)) }
fn d600(d: &[u8], t: &[Ty]) -> Out { u600(c9::functions::fun87::decode_output(d), t) }
fn k600(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun87::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Address>(v, 10)); (i, u600(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u601(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e601(v: &[Val]) -> Vec<u8> { c9::functions::fun88::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9), arg::<Vec<Vec<u8>>>(v, 10)) }
fn d601(d: &[u8], t: &[Ty]) -> Out { u601(c9::functions::fun88::decode_output(d), t) }
fn k601(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun88::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9), arg::<Vec<Vec<u8>>>(v, 10)); (i, u601(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u602(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e602(v: &[Val]) -> Vec<u8> { c9::functions::fun89::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9), arg::<Uint>(v, 10)) }
fn d602(d: &[u8], t: &[Ty]) -> Out { u602(c9::functions::fun89::decode_output(d), t) }
fn k602(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun89::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9), arg::<Uint>(v, 10)); (i, u602(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u603(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e603(v: &[Val]) -> Vec<u8> { c9::functions::fun90::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9), arg::<Vec<u8>>(v, 10)) }
fn d603(d: &[u8], t: &[Ty]) -> Out { u603(c9::functions::fun90::decode_output(d), t) }
fn k603(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun90::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9), arg::<Vec<u8>>(v, 10)); (i, u603(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u604(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e604(v: &[Val]) -> Vec<u8> { c9::functions::fun91::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9), arg::<[String; 2]>(v, 10)) }
fn d604(d: &[u8], t: &[Ty]) -> Out { u604(c9::functions::fun91::decode_output(d), t) }
fn k604(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun91::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9), arg::<[String; 2]>(v, 10)); (i, u604(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u605(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e605(v: &[Val]) -> Vec<u8> { c9::functions::fun92::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9), arg::<[u8; 3]>(v, 10)) }
fn d605(d: &[u8], t: &[Ty]) -> Out { u605(c9::functions::fun92::decode_output(d), t) }
fn k605(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun92::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9), arg::<[u8; 3]>(v, 10)); (i, u605(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u606(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e606(v: &[Val]) -> Vec<u8> { c9::functions::fun93::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9), arg::<Vec<bool>>(v, 10)) }
fn d606(d: &[u8], t: &[Ty]) -> Out { u606(c9::functions::fun93::decode_output(d), t) }
fn k606(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun93::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9), arg::<Vec<bool>>(v, 10)); (i, u606(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u607(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e607(v: &[Val]) -> Vec<u8> { c9::functions::fun94::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10)) }
fn d607(d: &[u8], t: &[Ty]) -> Out { u607(c9::functions::fun94::decode_output(d), t) }
fn k607(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun94::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10)); (i, u607(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u608(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10])]).map_err(|e| e.to_string()) }
fn e608(v: &[Val]) -> Vec<u8> { c9::functions::fun95::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9), arg::<String>(v, 10)) }
fn d608(d: &[u8], t: &[Ty]) -> Out { u608(c9::functions::fun95::decode_output(d), t) }
fn k608(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun95::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9), arg::<String>(v, 10)); (i, u608(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u609(r: ethabi::Result<(Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e609(v: &[Val]) -> Vec<u8> { c9::functions::fun96::encode_input(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9), arg::<bool>(v, 10), arg::<Uint>(v, 11)) }
fn d609(d: &[u8], t: &[Ty]) -> Out { u609(c9::functions::fun96::decode_output(d), t) }
fn k609(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun96::call(arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9), arg::<bool>(v, 10), arg::<Uint>(v, 11)); (i, u609(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u610(r: ethabi::Result<(Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e610(v: &[Val]) -> Vec<u8> { c9::functions::fun97::encode_input(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9), arg::<Hash>(v, 10), arg::<Vec<u8>>(v, 11)) }
fn d610(d: &[u8], t: &[Ty]) -> Out { u610(c9::functions::fun97::decode_output(d), t) }
fn k610(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun97::call(arg::<String>(v, 0), arg::<Vec<Vec<u8>>>(v, 1), arg::<Vec<bool>>(v, 2), arg::<[Uint; 2]>(v, 3), arg::<[String; 2]>(v, 4), arg::<bool>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Address>(v, 8), arg::<[u8; 3]>(v, 9), arg::<Hash>(v, 10), arg::<Vec<u8>>(v, 11)); (i, u610(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u611(r: ethabi::Result<([String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e611(v: &[Val]) -> Vec<u8> { c9::functions::fun98::encode_input(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9), arg::<[Uint; 2]>(v, 10), arg::<[String; 2]>(v, 11)) }
fn d611(d: &[u8], t: &[Ty]) -> Out { u611(c9::functions::fun98::decode_output(d), t) }
fn k611(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun98::call(arg::<bool>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Address>(v, 3), arg::<[u8; 3]>(v, 4), arg::<Hash>(v, 5), arg::<Vec<u8>>(v, 6), arg::<String>(v, 7), arg::<Vec<Vec<u8>>>(v, 8), arg::<Vec<bool>>(v, 9), arg::<[Uint; 2]>(v, 10), arg::<[String; 2]>(v, 11)); (i, u611(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u612(r: ethabi::Result<([u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e612(v: &[Val]) -> Vec<u8> { c9::functions::fun99::encode_input(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Address>(v, 10), arg::<[u8; 3]>(v, 11)) }
fn d612(d: &[u8], t: &[Ty]) -> Out { u612(c9::functions::fun99::decode_output(d), t) }
fn k612(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun99::call(arg::<Hash>(v, 0), arg::<Vec<u8>>(v, 1), arg::<String>(v, 2), arg::<Vec<Vec<u8>>>(v, 3), arg::<Vec<bool>>(v, 4), arg::<[Uint; 2]>(v, 5), arg::<[String; 2]>(v, 6), arg::<bool>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Address>(v, 10), arg::<[u8; 3]>(v, 11)); (i, u612(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u613(r: ethabi::Result<(Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e613(v: &[Val]) -> Vec<u8> { c9::functions::fun100::encode_input(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9), arg::<Vec<Vec<u8>>>(v, 10), arg::<Vec<bool>>(v, 11)) }
fn d613(d: &[u8], t: &[Ty]) -> Out { u613(c9::functions::fun100::decode_output(d), t) }
fn k613(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun100::call(arg::<[Uint; 2]>(v, 0), arg::<[String; 2]>(v, 1), arg::<bool>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Address>(v, 5), arg::<[u8; 3]>(v, 6), arg::<Hash>(v, 7), arg::<Vec<u8>>(v, 8), arg::<String>(v, 9), arg::<Vec<Vec<u8>>>(v, 10), arg::<Vec<bool>>(v, 11)); (i, u613(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u614(r: ethabi::Result<(Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e614(v: &[Val]) -> Vec<u8> { c9::functions::fun101::encode_input(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)) }
fn d614(d: &[u8], t: &[Ty]) -> Out { u614(c9::functions::fun101::decode_output(d), t) }
fn k614(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun101::call(arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4), arg::<Vec<Vec<u8>>>(v, 5), arg::<Vec<bool>>(v, 6), arg::<[Uint; 2]>(v, 7), arg::<[String; 2]>(v, 8), arg::<bool>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)); (i, u614(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u615(r: ethabi::Result<(String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e615(v: &[Val]) -> Vec<u8> { c9::functions::fun102::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9), arg::<Vec<u8>>(v, 10), arg::<String>(v, 11)) }
fn d615(d: &[u8], t: &[Ty]) -> Out { u615(c9::functions::fun102::decode_output(d), t) }
fn k615(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun102::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Address>(v, 7), arg::<[u8; 3]>(v, 8), arg::<Hash>(v, 9), arg::<Vec<u8>>(v, 10), arg::<String>(v, 11)); (i, u615(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u616(r: ethabi::Result<(bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e616(v: &[Val]) -> Vec<u8> { c9::functions::fun103::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9), arg::<[String; 2]>(v, 10), arg::<bool>(v, 11)) }
fn d616(d: &[u8], t: &[Ty]) -> Out { u616(c9::functions::fun103::decode_output(d), t) }
fn k616(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun103::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6), arg::<Vec<Vec<u8>>>(v, 7), arg::<Vec<bool>>(v, 8), arg::<[Uint; 2]>(v, 9), arg::<[String; 2]>(v, 10), arg::<bool>(v, 11)); (i, u616(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u617(r: ethabi::Result<(Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e617(v: &[Val]) -> Vec<u8> { c9::functions::fun104::encode_input(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9), arg::<[u8; 3]>(v, 10), arg::<Hash>(v, 11)) }
fn d617(d: &[u8], t: &[Ty]) -> Out { u617(c9::functions::fun104::decode_output(d), t) }
fn k617(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun104::call(arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Address>(v, 9), arg::<[u8; 3]>(v, 10), arg::<Hash>(v, 11)); (i, u617(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u618(r: ethabi::Result<([Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e618(v: &[Val]) -> Vec<u8> { c9::functions::fun105::encode_input(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9), arg::<Vec<bool>>(v, 10), arg::<[Uint; 2]>(v, 11)) }
fn d618(d: &[u8], t: &[Ty]) -> Out { u618(c9::functions::fun105::decode_output(d), t) }
fn k618(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun105::call(arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8), arg::<Vec<Vec<u8>>>(v, 9), arg::<Vec<bool>>(v, 10), arg::<[Uint; 2]>(v, 11)); (i, u618(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u619(r: ethabi::Result<(Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>, Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e619(v: &[Val]) -> Vec<u8> { c9::functions::fun106::encode_input(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Address>(v, 11)) }
fn d619(d: &[u8], t: &[Ty]) -> Out { u619(c9::functions::fun106::decode_output(d), t) }
fn k619(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun106::call(arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Address>(v, 11)); (i, u619(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u620(r: ethabi::Result<(Vec<Vec<u8>>, String, Vec<u8>, Hash, [u8; 3], Address, Uint, Uint, bool, [String; 2], [Uint; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e620(v: &[Val]) -> Vec<u8> { c9::functions::fun107::encode_input(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9), arg::<String>(v, 10), arg::<Vec<Vec<u8>>>(v, 11)) }
fn d620(d: &[u8], t: &[Ty]) -> Out { u620(c9::functions::fun107::decode_output(d), t) }
fn k620(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun107::call(arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9), arg::<String>(v, 10), arg::<Vec<Vec<u8>>>(v, 11)); (i, u620(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u621(r: ethabi::Result<(Address, Address, Address, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e621(v: &[Val]) -> Vec<u8> { c9::functions::fun108::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3)) }
fn d621(d: &[u8], t: &[Ty]) -> Out { u621(c9::functions::fun108::decode_output(d), t) }
fn k621(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun108::call(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3)); (i, u621(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u622(r: ethabi::Result<(Address, Address, Address, Address, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e622(v: &[Val]) -> Vec<u8> { c9::functions::fun109::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4)) }
fn d622(d: &[u8], t: &[Ty]) -> Out { u622(c9::functions::fun109::decode_output(d), t) }
fn k622(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun109::call(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4)); (i, u622(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u623(r: ethabi::Result<(Address, Address, Address, Address, Address, Address, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e623(v: &[Val]) -> Vec<u8> { c9::functions::fun110::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4), arg::<Address>(v, 5), arg::<Address>(v, 6)) }
fn d623(d: &[u8], t: &[Ty]) -> Out { u623(c9::functions::fun110::decode_output(d), t) }
fn k623(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun110::call(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4), arg::<Address>(v, 5), arg::<Address>(v, 6)); (i, u623(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u624(r: ethabi::Result<(Address, Address, Address, Address, Address, Address, Address, Address, Address, Address, Address, Address)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e624(v: &[Val]) -> Vec<u8> { c9::functions::fun111::encode_input(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4), arg::<Address>(v, 5), arg::<Address>(v, 6), arg::<Address>(v, 7), arg::<Address>(v, 8), arg::<Address>(v, 9), arg::<Address>(v, 10), arg::<Address>(v, 11)) }
fn d624(d: &[u8], t: &[Ty]) -> Out { u624(c9::functions::fun111::decode_output(d), t) }
fn k624(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun111::call(arg::<Address>(v, 0), arg::<Address>(v, 1), arg::<Address>(v, 2), arg::<Address>(v, 3), arg::<Address>(v, 4), arg::<Address>(v, 5), arg::<Address>(v, 6), arg::<Address>(v, 7), arg::<Address>(v, 8), arg::<Address>(v, 9), arg::<Address>(v, 10), arg::<Address>(v, 11)); (i, u624(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u625(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e625(v: &[Val]) -> Vec<u8> { c9::functions::fun112::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3)) }
fn d625(d: &[u8], t: &[Ty]) -> Out { u625(c9::functions::fun112::decode_output(d), t) }
fn k625(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun112::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3)); (i, u625(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u626(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e626(v: &[Val]) -> Vec<u8> { c9::functions::fun113::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)) }
fn d626(d: &[u8], t: &[Ty]) -> Out { u626(c9::functions::fun113::decode_output(d), t) }
fn k626(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun113::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4)); (i, u626(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u627(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e627(v: &[Val]) -> Vec<u8> { c9::functions::fun114::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4), arg::<Vec<u8>>(v, 5), arg::<Vec<u8>>(v, 6)) }
fn d627(d: &[u8], t: &[Ty]) -> Out { u627(c9::functions::fun114::decode_output(d), t) }
fn k627(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun114::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4), arg::<Vec<u8>>(v, 5), arg::<Vec<u8>>(v, 6)); (i, u627(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u628(r: ethabi::Result<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e628(v: &[Val]) -> Vec<u8> { c9::functions::fun115::encode_input(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4), arg::<Vec<u8>>(v, 5), arg::<Vec<u8>>(v, 6), arg::<Vec<u8>>(v, 7), arg::<Vec<u8>>(v, 8), arg::<Vec<u8>>(v, 9), arg::<Vec<u8>>(v, 10), arg::<Vec<u8>>(v, 11)) }
fn d628(d: &[u8], t: &[Ty]) -> Out { u628(c9::functions::fun115::decode_output(d), t) }
fn k628(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun115::call(arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Vec<u8>>(v, 2), arg::<Vec<u8>>(v, 3), arg::<Vec<u8>>(v, 4), arg::<Vec<u8>>(v, 5), arg::<Vec<u8>>(v, 6), arg::<Vec<u8>>(v, 7), arg::<Vec<u8>>(v, 8), arg::<Vec<u8>>(v, 9), arg::<Vec<u8>>(v, 10), arg::<Vec<u8>>(v, 11)); (i, u628(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u629(r: ethabi::Result<(Hash, Hash, Hash, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e629(v: &[Val]) -> Vec<u8> { c9::functions::fun116::encode_input(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3)) }
fn d629(d: &[u8], t: &[Ty]) -> Out { u629(c9::functions::fun116::decode_output(d), t) }
fn k629(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun116::call(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3)); (i, u629(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u630(r: ethabi::Result<(Hash, Hash, Hash, Hash, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e630(v: &[Val]) -> Vec<u8> { c9::functions::fun117::encode_input(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4)) }
fn d630(d: &[u8], t: &[Ty]) -> Out { u630(c9::functions::fun117::decode_output(d), t) }
fn k630(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun117::call(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4)); (i, u630(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u631(r: ethabi::Result<(Hash, Hash, Hash, Hash, Hash, Hash, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e631(v: &[Val]) -> Vec<u8> { c9::functions::fun118::encode_input(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4), arg::<Hash>(v, 5), arg::<Hash>(v, 6)) }
fn d631(d: &[u8], t: &[Ty]) -> Out { u631(c9::functions::fun118::decode_output(d), t) }
fn k631(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun118::call(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4), arg::<Hash>(v, 5), arg::<Hash>(v, 6)); (i, u631(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u632(r: ethabi::Result<(Hash, Hash, Hash, Hash, Hash, Hash, Hash, Hash, Hash, Hash, Hash, Hash)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e632(v: &[Val]) -> Vec<u8> { c9::functions::fun119::encode_input(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4), arg::<Hash>(v, 5), arg::<Hash>(v, 6), arg::<Hash>(v, 7), arg::<Hash>(v, 8), arg::<Hash>(v, 9), arg::<Hash>(v, 10), arg::<Hash>(v, 11)) }
fn d632(d: &[u8], t: &[Ty]) -> Out { u632(c9::functions::fun119::decode_output(d), t) }
fn k632(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun119::call(arg::<Hash>(v, 0), arg::<Hash>(v, 1), arg::<Hash>(v, 2), arg::<Hash>(v, 3), arg::<Hash>(v, 4), arg::<Hash>(v, 5), arg::<Hash>(v, 6), arg::<Hash>(v, 7), arg::<Hash>(v, 8), arg::<Hash>(v, 9), arg::<Hash>(v, 10), arg::<Hash>(v, 11)); (i, u632(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u633(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e633(v: &[Val]) -> Vec<u8> { c9::functions::fun120::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3)) }
fn d633(d: &[u8], t: &[Ty]) -> Out { u633(c9::functions::fun120::decode_output(d), t) }
fn k633(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun120::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3)); (i, u633(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u634(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e634(v: &[Val]) -> Vec<u8> { c9::functions::fun121::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)) }
fn d634(d: &[u8], t: &[Ty]) -> Out { u634(c9::functions::fun121::decode_output(d), t) }
fn k634(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun121::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4)); (i, u634(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u635(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e635(v: &[Val]) -> Vec<u8> { c9::functions::fun122::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4), arg::<[u8; 4]>(v, 5), arg::<[u8; 4]>(v, 6)) }
fn d635(d: &[u8], t: &[Ty]) -> Out { u635(c9::functions::fun122::decode_output(d), t) }
fn k635(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun122::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4), arg::<[u8; 4]>(v, 5), arg::<[u8; 4]>(v, 6)); (i, u635(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u636(r: ethabi::Result<([u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4], [u8; 4])>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e636(v: &[Val]) -> Vec<u8> { c9::functions::fun123::encode_input(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4), arg::<[u8; 4]>(v, 5), arg::<[u8; 4]>(v, 6), arg::<[u8; 4]>(v, 7), arg::<[u8; 4]>(v, 8), arg::<[u8; 4]>(v, 9), arg::<[u8; 4]>(v, 10), arg::<[u8; 4]>(v, 11)) }
fn d636(d: &[u8], t: &[Ty]) -> Out { u636(c9::functions::fun123::decode_output(d), t) }
fn k636(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun123::call(arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1), arg::<[u8; 4]>(v, 2), arg::<[u8; 4]>(v, 3), arg::<[u8; 4]>(v, 4), arg::<[u8; 4]>(v, 5), arg::<[u8; 4]>(v, 6), arg::<[u8; 4]>(v, 7), arg::<[u8; 4]>(v, 8), arg::<[u8; 4]>(v, 9), arg::<[u8; 4]>(v, 10), arg::<[u8; 4]>(v, 11)); (i, u636(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u637(r: ethabi::Result<(Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e637(v: &[Val]) -> Vec<u8> { c9::functions::fun124::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d637(d: &[u8], t: &[Ty]) -> Out { u637(c9::functions::fun124::decode_output(d), t) }
fn k637(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun124::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u637(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u638(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e638(v: &[Val]) -> Vec<u8> { c9::functions::fun125::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)) }
fn d638(d: &[u8], t: &[Ty]) -> Out { u638(c9::functions::fun125::decode_output(d), t) }
fn k638(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun125::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)); (i, u638(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u639(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e639(v: &[Val]) -> Vec<u8> { c9::functions::fun126::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)) }
fn d639(d: &[u8], t: &[Ty]) -> Out { u639(c9::functions::fun126::decode_output(d), t) }
fn k639(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun126::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)); (i, u639(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u640(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e640(v: &[Val]) -> Vec<u8> { c9::functions::fun127::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)) }
fn d640(d: &[u8], t: &[Ty]) -> Out { u640(c9::functions::fun127::decode_output(d), t) }
fn k640(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun127::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)); (i, u640(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u641(r: ethabi::Result<(Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e641(v: &[Val]) -> Vec<u8> { c9::functions::fun128::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d641(d: &[u8], t: &[Ty]) -> Out { u641(c9::functions::fun128::decode_output(d), t) }
fn k641(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun128::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u641(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u642(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e642(v: &[Val]) -> Vec<u8> { c9::functions::fun129::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)) }
fn d642(d: &[u8], t: &[Ty]) -> Out { u642(c9::functions::fun129::decode_output(d), t) }
fn k642(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun129::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)); (i, u642(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u643(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e643(v: &[Val]) -> Vec<u8> { c9::functions::fun130::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)) }
fn d643(d: &[u8], t: &[Ty]) -> Out { u643(c9::functions::fun130::decode_output(d), t) }
fn k643(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun130::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)); (i, u643(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u644(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e644(v: &[Val]) -> Vec<u8> { c9::functions::fun131::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)) }
fn d644(d: &[u8], t: &[Ty]) -> Out { u644(c9::functions::fun131::decode_output(d), t) }
fn k644(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun131::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)); (i, u644(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u645(r: ethabi::Result<(Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e645(v: &[Val]) -> Vec<u8> { c9::functions::fun132::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn d645(d: &[u8], t: &[Ty]) -> Out { u645(c9::functions::fun132::decode_output(d), t) }
fn k645(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun132::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)); (i, u645(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u646(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e646(v: &[Val]) -> Vec<u8> { c9::functions::fun133::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)) }
fn d646(d: &[u8], t: &[Ty]) -> Out { u646(c9::functions::fun133::decode_output(d), t) }
fn k646(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun133::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4)); (i, u646(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u647(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e647(v: &[Val]) -> Vec<u8> { c9::functions::fun134::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)) }
fn d647(d: &[u8], t: &[Ty]) -> Out { u647(c9::functions::fun134::decode_output(d), t) }
fn k647(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun134::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6)); (i, u647(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u648(r: ethabi::Result<(Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e648(v: &[Val]) -> Vec<u8> { c9::functions::fun135::encode_input(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)) }
fn d648(d: &[u8], t: &[Ty]) -> Out { u648(c9::functions::fun135::decode_output(d), t) }
fn k648(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun135::call(arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<Uint>(v, 7), arg::<Uint>(v, 8), arg::<Uint>(v, 9), arg::<Uint>(v, 10), arg::<Uint>(v, 11)); (i, u648(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u649(r: ethabi::Result<(bool, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e649(v: &[Val]) -> Vec<u8> { c9::functions::fun136::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)) }
fn d649(d: &[u8], t: &[Ty]) -> Out { u649(c9::functions::fun136::decode_output(d), t) }
fn k649(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun136::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3)); (i, u649(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u650(r: ethabi::Result<(bool, bool, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e650(v: &[Val]) -> Vec<u8> { c9::functions::fun137::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4)) }
fn d650(d: &[u8], t: &[Ty]) -> Out { u650(c9::functions::fun137::decode_output(d), t) }
fn k650(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun137::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4)); (i, u650(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u651(r: ethabi::Result<(bool, bool, bool, bool, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e651(v: &[Val]) -> Vec<u8> { c9::functions::fun138::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4), arg::<bool>(v, 5), arg::<bool>(v, 6)) }
fn d651(d: &[u8], t: &[Ty]) -> Out { u651(c9::functions::fun138::decode_output(d), t) }
fn k651(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun138::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4), arg::<bool>(v, 5), arg::<bool>(v, 6)); (i, u651(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u652(r: ethabi::Result<(bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e652(v: &[Val]) -> Vec<u8> { c9::functions::fun139::encode_input(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4), arg::<bool>(v, 5), arg::<bool>(v, 6), arg::<bool>(v, 7), arg::<bool>(v, 8), arg::<bool>(v, 9), arg::<bool>(v, 10), arg::<bool>(v, 11)) }
fn d652(d: &[u8], t: &[Ty]) -> Out { u652(c9::functions::fun139::decode_output(d), t) }
fn k652(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun139::call(arg::<bool>(v, 0), arg::<bool>(v, 1), arg::<bool>(v, 2), arg::<bool>(v, 3), arg::<bool>(v, 4), arg::<bool>(v, 5), arg::<bool>(v, 6), arg::<bool>(v, 7), arg::<bool>(v, 8), arg::<bool>(v, 9), arg::<bool>(v, 10), arg::<bool>(v, 11)); (i, u652(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u653(r: ethabi::Result<(String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3])]).map_err(|e| e.to_string()) }
fn e653(v: &[Val]) -> Vec<u8> { c9::functions::fun140::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn d653(d: &[u8], t: &[Ty]) -> Out { u653(c9::functions::fun140::decode_output(d), t) }
fn k653(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun140::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)); (i, u653(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u654(r: ethabi::Result<(String, String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4])]).map_err(|e| e.to_string()) }
fn e654(v: &[Val]) -> Vec<u8> { c9::functions::fun141::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4)) }
fn d654(d: &[u8], t: &[Ty]) -> Out { u654(c9::functions::fun141::decode_output(d), t) }
fn k654(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun141::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4)); (i, u654(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u655(r: ethabi::Result<(String, String, String, String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6])]).map_err(|e| e.to_string()) }
fn e655(v: &[Val]) -> Vec<u8> { c9::functions::fun142::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4), arg::<String>(v, 5), arg::<String>(v, 6)) }
fn d655(d: &[u8], t: &[Ty]) -> Out { u655(c9::functions::fun142::decode_output(d), t) }
fn k655(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun142::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4), arg::<String>(v, 5), arg::<String>(v, 6)); (i, u655(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u656(r: ethabi::Result<(String, String, String, String, String, String, String, String, String, String, String, String)>, t: &[Ty]) -> Out { r.map(|(o0, o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11)| vec![o0.to_val(&t[0]), o1.to_val(&t[1]), o2.to_val(&t[2]), o3.to_val(&t[3]), o4.to_val(&t[4]), o5.to_val(&t[5]), o6.to_val(&t[6]), o7.to_val(&t[7]), o8.to_val(&t[8]), o9.to_val(&t[9]), o10.to_val(&t[10]), o11.to_val(&t[11])]).map_err(|e| e.to_string()) }
fn e656(v: &[Val]) -> Vec<u8> { c9::functions::fun143::encode_input(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4), arg::<String>(v, 5), arg::<String>(v, 6), arg::<String>(v, 7), arg::<String>(v, 8), arg::<String>(v, 9), arg::<String>(v, 10), arg::<String>(v, 11)) }
fn d656(d: &[u8], t: &[Ty]) -> Out { u656(c9::functions::fun143::decode_output(d), t) }
fn k656(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c9::functions::fun143::call(arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3), arg::<String>(v, 4), arg::<String>(v, 5), arg::<String>(v, 6), arg::<String>(v, 7), arg::<String>(v, 8), arg::<String>(v, 9), arg::<String>(v, 10), arg::<String>(v, 11)); (i, u656(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u657(r: ethabi::Result<([Address; 2], Vec<Address>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e657(v: &[Val]) -> Vec<u8> { c10::functions::fun0::encode_input(arg::<Vec<Address>>(v, 0), arg::<[Address; 2]>(v, 1)) }
fn d657(d: &[u8], t: &[Ty]) -> Out { u657(c10::functions::fun0::decode_output(d), t) }
fn k657(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun0::call(arg::<Vec<Address>>(v, 0), arg::<[Address; 2]>(v, 1)); (i, u657(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u658(r: ethabi::Result<([bool; 2], Vec<bool>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e658(v: &[Val]) -> Vec<u8> { c10::functions::fun1::encode_input(arg::<Vec<bool>>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn d658(d: &[u8], t: &[Ty]) -> Out { u658(c10::functions::fun1::decode_output(d), t) }
fn k658(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun1::call(arg::<Vec<bool>>(v, 0), arg::<[bool; 2]>(v, 1)); (i, u658(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u659(r: ethabi::Result<([String; 2], Vec<String>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e659(v: &[Val]) -> Vec<u8> { c10::functions::fun2::encode_input(arg::<Vec<String>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d659(d: &[u8], t: &[Ty]) -> Out { u659(c10::functions::fun2::decode_output(d), t) }
fn k659(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun2::call(arg::<Vec<String>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u659(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u660(r: ethabi::Result<([Vec<u8>; 2], Vec<Vec<u8>>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e660(v: &[Val]) -> Vec<u8> { c10::functions::fun3::encode_input(arg::<Vec<Vec<u8>>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)) }
fn d660(d: &[u8], t: &[Ty]) -> Out { u660(c10::functions::fun3::decode_output(d), t) }
fn k660(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun3::call(arg::<Vec<Vec<u8>>>(v, 0), arg::<[Vec<u8>; 2]>(v, 1)); (i, u660(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u661(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e661(v: &[Val]) -> Vec<u8> { c10::functions::fun4::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d661(d: &[u8], t: &[Ty]) -> Out { u661(c10::functions::fun4::decode_output(d), t) }
fn k661(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun4::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u661(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u662(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e662(v: &[Val]) -> Vec<u8> { c10::functions::fun5::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d662(d: &[u8], t: &[Ty]) -> Out { u662(c10::functions::fun5::decode_output(d), t) }
fn k662(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun5::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u662(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u663(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e663(v: &[Val]) -> Vec<u8> { c10::functions::fun6::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d663(d: &[u8], t: &[Ty]) -> Out { u663(c10::functions::fun6::decode_output(d), t) }
fn k663(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun6::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u663(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u664(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e664(v: &[Val]) -> Vec<u8> { c10::functions::fun7::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d664(d: &[u8], t: &[Ty]) -> Out { u664(c10::functions::fun7::decode_output(d), t) }
fn k664(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun7::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u664(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u665(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e665(v: &[Val]) -> Vec<u8> { c10::functions::fun8::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d665(d: &[u8], t: &[Ty]) -> Out { u665(c10::functions::fun8::decode_output(d), t) }
fn k665(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun8::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u665(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u666(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e666(v: &[Val]) -> Vec<u8> { c10::functions::fun9::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d666(d: &[u8], t: &[Ty]) -> Out { u666(c10::functions::fun9::decode_output(d), t) }
fn k666(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun9::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u666(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u667(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e667(v: &[Val]) -> Vec<u8> { c10::functions::fun10::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d667(d: &[u8], t: &[Ty]) -> Out { u667(c10::functions::fun10::decode_output(d), t) }
fn k667(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun10::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u667(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u668(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e668(v: &[Val]) -> Vec<u8> { c10::functions::fun11::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d668(d: &[u8], t: &[Ty]) -> Out { u668(c10::functions::fun11::decode_output(d), t) }
fn k668(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun11::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u668(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u669(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e669(v: &[Val]) -> Vec<u8> { c10::functions::fun12::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d669(d: &[u8], t: &[Ty]) -> Out { u669(c10::functions::fun12::decode_output(d), t) }
fn k669(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun12::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u669(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u670(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e670(v: &[Val]) -> Vec<u8> { c10::functions::fun13::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d670(d: &[u8], t: &[Ty]) -> Out { u670(c10::functions::fun13::decode_output(d), t) }
fn k670(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun13::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u670(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u671(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e671(v: &[Val]) -> Vec<u8> { c10::functions::fun14::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d671(d: &[u8], t: &[Ty]) -> Out { u671(c10::functions::fun14::decode_output(d), t) }
fn k671(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun14::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u671(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u672(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e672(v: &[Val]) -> Vec<u8> { c10::functions::fun15::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d672(d: &[u8], t: &[Ty]) -> Out { u672(c10::functions::fun15::decode_output(d), t) }
fn k672(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun15::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u672(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u673(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e673(v: &[Val]) -> Vec<u8> { c10::functions::fun16::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d673(d: &[u8], t: &[Ty]) -> Out { u673(c10::functions::fun16::decode_output(d), t) }
fn k673(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun16::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u673(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u674(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e674(v: &[Val]) -> Vec<u8> { c10::functions::fun17::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d674(d: &[u8], t: &[Ty]) -> Out { u674(c10::functions::fun17::decode_output(d), t) }
fn k674(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun17::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u674(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u675(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e675(v: &[Val]) -> Vec<u8> { c10::functions::fun18::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d675(d: &[u8], t: &[Ty]) -> Out { u675(c10::functions::fun18::decode_output(d), t) }
fn k675(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun18::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u675(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u676(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e676(v: &[Val]) -> Vec<u8> { c10::functions::fun19::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d676(d: &[u8], t: &[Ty]) -> Out { u676(c10::functions::fun19::decode_output(d), t) }
fn k676(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun19::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u676(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u677(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e677(v: &[Val]) -> Vec<u8> { c10::functions::fun20::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d677(d: &[u8], t: &[Ty]) -> Out { u677(c10::functions::fun20::decode_output(d), t) }
fn k677(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun20::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u677(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u678(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e678(v: &[Val]) -> Vec<u8> { c10::functions::fun21::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d678(d: &[u8], t: &[Ty]) -> Out { u678(c10::functions::fun21::decode_output(d), t) }
fn k678(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun21::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u678(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u679(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e679(v: &[Val]) -> Vec<u8> { c10::functions::fun22::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d679(d: &[u8], t: &[Ty]) -> Out { u679(c10::functions::fun22::decode_output(d), t) }
fn k679(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun22::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u679(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u680(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e680(v: &[Val]) -> Vec<u8> { c10::functions::fun23::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d680(d: &[u8], t: &[Ty]) -> Out { u680(c10::functions::fun23::decode_output(d), t) }
fn k680(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun23::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u680(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u681(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e681(v: &[Val]) -> Vec<u8> { c10::functions::fun24::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d681(d: &[u8], t: &[Ty]) -> Out { u681(c10::functions::fun24::decode_output(d), t) }
fn k681(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun24::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u681(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u682(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e682(v: &[Val]) -> Vec<u8> { c10::functions::fun25::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d682(d: &[u8], t: &[Ty]) -> Out { u682(c10::functions::fun25::decode_output(d), t) }
fn k682(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun25::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u682(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u683(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e683(v: &[Val]) -> Vec<u8> { c10::functions::fun26::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d683(d: &[u8], t: &[Ty]) -> Out { u683(c10::functions::fun26::decode_output(d), t) }
fn k683(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun26::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u683(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u684(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e684(v: &[Val]) -> Vec<u8> { c10::functions::fun27::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d684(d: &[u8], t: &[Ty]) -> Out { u684(c10::functions::fun27::decode_output(d), t) }
fn k684(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun27::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u684(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u685(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e685(v: &[Val]) -> Vec<u8> { c10::functions::fun28::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d685(d: &[u8], t: &[Ty]) -> Out { u685(c10::functions::fun28::decode_output(d), t) }
fn k685(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun28::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u685(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u686(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e686(v: &[Val]) -> Vec<u8> { c10::functions::fun29::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d686(d: &[u8], t: &[Ty]) -> Out { u686(c10::functions::fun29::decode_output(d), t) }
fn k686(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun29::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u686(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u687(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e687(v: &[Val]) -> Vec<u8> { c10::functions::fun30::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d687(d: &[u8], t: &[Ty]) -> Out { u687(c10::functions::fun30::decode_output(d), t) }
fn k687(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun30::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u687(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u688(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e688(v: &[Val]) -> Vec<u8> { c10::functions::fun31::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d688(d: &[u8], t: &[Ty]) -> Out { u688(c10::functions::fun31::decode_output(d), t) }
fn k688(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun31::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u688(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u689(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e689(v: &[Val]) -> Vec<u8> { c10::functions::fun32::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d689(d: &[u8], t: &[Ty]) -> Out { u689(c10::functions::fun32::decode_output(d), t) }
fn k689(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun32::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u689(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u690(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e690(v: &[Val]) -> Vec<u8> { c10::functions::fun33::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d690(d: &[u8], t: &[Ty]) -> Out { u690(c10::functions::fun33::decode_output(d), t) }
fn k690(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun33::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u690(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u691(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e691(v: &[Val]) -> Vec<u8> { c10::functions::fun34::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d691(d: &[u8], t: &[Ty]) -> Out { u691(c10::functions::fun34::decode_output(d), t) }
fn k691(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun34::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u691(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u692(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e692(v: &[Val]) -> Vec<u8> { c10::functions::fun35::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d692(d: &[u8], t: &[Ty]) -> Out { u692(c10::functions::fun35::decode_output(d), t) }
fn k692(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun35::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u692(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u693(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e693(v: &[Val]) -> Vec<u8> { c10::functions::fun36::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d693(d: &[u8], t: &[Ty]) -> Out { u693(c10::functions::fun36::decode_output(d), t) }
fn k693(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun36::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u693(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u694(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e694(v: &[Val]) -> Vec<u8> { c10::functions::fun37::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d694(d: &[u8], t: &[Ty]) -> Out { u694(c10::functions::fun37::decode_output(d), t) }
fn k694(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun37::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u694(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u695(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e695(v: &[Val]) -> Vec<u8> { c10::functions::fun38::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d695(d: &[u8], t: &[Ty]) -> Out { u695(c10::functions::fun38::decode_output(d), t) }
fn k695(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun38::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u695(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u696(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e696(v: &[Val]) -> Vec<u8> { c10::functions::fun39::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d696(d: &[u8], t: &[Ty]) -> Out { u696(c10::functions::fun39::decode_output(d), t) }
fn k696(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun39::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u696(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u697(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e697(v: &[Val]) -> Vec<u8> { c10::functions::fun40::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d697(d: &[u8], t: &[Ty]) -> Out { u697(c10::functions::fun40::decode_output(d), t) }
fn k697(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun40::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u697(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u698(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e698(v: &[Val]) -> Vec<u8> { c10::functions::fun41::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d698(d: &[u8], t: &[Ty]) -> Out { u698(c10::functions::fun41::decode_output(d), t) }
fn k698(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun41::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u698(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u699(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e699(v: &[Val]) -> Vec<u8> { c10::functions::fun42::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d699(d: &[u8], t: &[Ty]) -> Out { u699(c10::functions::fun42::decode_output(d), t) }
fn k699(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun42::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u699(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u700(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e700(v: &[Val]) -> Vec<u8> { c10::functions::fun43::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d700(d: &[u8], t: &[Ty]) -> Out { u700(c10::functions::fun43::decode_output(d), t) }
fn k700(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun43::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u700(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u701(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e701(v: &[Val]) -> Vec<u8> { c10::functions::fun44::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d701(d: &[u8], t: &[Ty]) -> Out { u701(c10::functions::fun44::decode_output(d), t) }
fn k701(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun44::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u701(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u702(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e702(v: &[Val]) -> Vec<u8> { c10::functions::fun45::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d702(d: &[u8], t: &[Ty]) -> Out { u702(c10::functions::fun45::decode_output(d), t) }
fn k702(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun45::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u702(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u703(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e703(v: &[Val]) -> Vec<u8> { c10::functions::fun46::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d703(d: &[u8], t: &[Ty]) -> Out { u703(c10::functions::fun46::decode_output(d), t) }
fn k703(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun46::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u703(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u704(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e704(v: &[Val]) -> Vec<u8> { c10::functions::fun47::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d704(d: &[u8], t: &[Ty]) -> Out { u704(c10::functions::fun47::decode_output(d), t) }
fn k704(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun47::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u704(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u705(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e705(v: &[Val]) -> Vec<u8> { c10::functions::fun48::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d705(d: &[u8], t: &[Ty]) -> Out { u705(c10::functions::fun48::decode_output(d), t) }
fn k705(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun48::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u705(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u706(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e706(v: &[Val]) -> Vec<u8> { c10::functions::fun49::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d706(d: &[u8], t: &[Ty]) -> Out { u706(c10::functions::fun49::decode_output(d), t) }
fn k706(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun49::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u706(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u707(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e707(v: &[Val]) -> Vec<u8> { c10::functions::fun50::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d707(d: &[u8], t: &[Ty]) -> Out { u707(c10::functions::fun50::decode_output(d), t) }
fn k707(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun50::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u707(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u708(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e708(v: &[Val]) -> Vec<u8> { c10::functions::fun51::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d708(d: &[u8], t: &[Ty]) -> Out { u708(c10::functions::fun51::decode_output(d), t) }
fn k708(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun51::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u708(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u709(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e709(v: &[Val]) -> Vec<u8> { c10::functions::fun52::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d709(d: &[u8], t: &[Ty]) -> Out { u709(c10::functions::fun52::decode_output(d), t) }
fn k709(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun52::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u709(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u710(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e710(v: &[Val]) -> Vec<u8> { c10::functions::fun53::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d710(d: &[u8], t: &[Ty]) -> Out { u710(c10::functions::fun53::decode_output(d), t) }
fn k710(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun53::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u710(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u711(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e711(v: &[Val]) -> Vec<u8> { c10::functions::fun54::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d711(d: &[u8], t: &[Ty]) -> Out { u711(c10::functions::fun54::decode_output(d), t) }
fn k711(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun54::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u711(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u712(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e712(v: &[Val]) -> Vec<u8> { c10::functions::fun55::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d712(d: &[u8], t: &[Ty]) -> Out { u712(c10::functions::fun55::decode_output(d), t) }
fn k712(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun55::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u712(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u713(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e713(v: &[Val]) -> Vec<u8> { c10::functions::fun56::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d713(d: &[u8], t: &[Ty]) -> Out { u713(c10::functions::fun56::decode_output(d), t) }
fn k713(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun56::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u713(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u714(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e714(v: &[Val]) -> Vec<u8> { c10::functions::fun57::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d714(d: &[u8], t: &[Ty]) -> Out { u714(c10::functions::fun57::decode_output(d), t) }
fn k714(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun57::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u714(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u715(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e715(v: &[Val]) -> Vec<u8> { c10::functions::fun58::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d715(d: &[u8], t: &[Ty]) -> Out { u715(c10::functions::fun58::decode_output(d), t) }
fn k715(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun58::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u715(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u716(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e716(v: &[Val]) -> Vec<u8> { c10::functions::fun59::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d716(d: &[u8], t: &[Ty]) -> Out { u716(c10::functions::fun59::decode_output(d), t) }
fn k716(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun59::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u716(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u717(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e717(v: &[Val]) -> Vec<u8> { c10::functions::fun60::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d717(d: &[u8], t: &[Ty]) -> Out { u717(c10::functions::fun60::decode_output(d), t) }
fn k717(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun60::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u717(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u718(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e718(v: &[Val]) -> Vec<u8> { c10::functions::fun61::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d718(d: &[u8], t: &[Ty]) -> Out { u718(c10::functions::fun61::decode_output(d), t) }
fn k718(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun61::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u718(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u719(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e719(v: &[Val]) -> Vec<u8> { c10::functions::fun62::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d719(d: &[u8], t: &[Ty]) -> Out { u719(c10::functions::fun62::decode_output(d), t) }
fn k719(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun62::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u719(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u720(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e720(v: &[Val]) -> Vec<u8> { c10::functions::fun63::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d720(d: &[u8], t: &[Ty]) -> Out { u720(c10::functions::fun63::decode_output(d), t) }
fn k720(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun63::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u720(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u721(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e721(v: &[Val]) -> Vec<u8> { c10::functions::fun64::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d721(d: &[u8], t: &[Ty]) -> Out { u721(c10::functions::fun64::decode_output(d), t) }
fn k721(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun64::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u721(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u722(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e722(v: &[Val]) -> Vec<u8> { c10::functions::fun65::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d722(d: &[u8], t: &[Ty]) -> Out { u722(c10::functions::fun65::decode_output(d), t) }
fn k722(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun65::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u722(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u723(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e723(v: &[Val]) -> Vec<u8> { c10::functions::fun66::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d723(d: &[u8], t: &[Ty]) -> Out { u723(c10::functions::fun66::decode_output(d), t) }
fn k723(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun66::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u723(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u724(r: ethabi::Result<([Uint; 2], Vec<Uint>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e724(v: &[Val]) -> Vec<u8> { c10::functions::fun67::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)) }
fn d724(d: &[u8], t: &[Ty]) -> Out { u724(c10::functions::fun67::decode_output(d), t) }
fn k724(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun67::call(arg::<Vec<Uint>>(v, 0), arg::<[Uint; 2]>(v, 1)); (i, u724(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u725(r: ethabi::Result<([[u8; 1]; 2], Vec<[u8; 1]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e725(v: &[Val]) -> Vec<u8> { c10::functions::fun68::encode_input(arg::<Vec<[u8; 1]>>(v, 0), arg::<[[u8; 1]; 2]>(v, 1)) }
fn d725(d: &[u8], t: &[Ty]) -> Out { u725(c10::functions::fun68::decode_output(d), t) }
fn k725(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun68::call(arg::<Vec<[u8; 1]>>(v, 0), arg::<[[u8; 1]; 2]>(v, 1)); (i, u725(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u726(r: ethabi::Result<([[u8; 2]; 2], Vec<[u8; 2]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e726(v: &[Val]) -> Vec<u8> { c10::functions::fun69::encode_input(arg::<Vec<[u8; 2]>>(v, 0), arg::<[[u8; 2]; 2]>(v, 1)) }
fn d726(d: &[u8], t: &[Ty]) -> Out { u726(c10::functions::fun69::decode_output(d), t) }
fn k726(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun69::call(arg::<Vec<[u8; 2]>>(v, 0), arg::<[[u8; 2]; 2]>(v, 1)); (i, u726(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u727(r: ethabi::Result<([[u8; 3]; 2], Vec<[u8; 3]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e727(v: &[Val]) -> Vec<u8> { c10::functions::fun70::encode_input(arg::<Vec<[u8; 3]>>(v, 0), arg::<[[u8; 3]; 2]>(v, 1)) }
fn d727(d: &[u8], t: &[Ty]) -> Out { u727(c10::functions::fun70::decode_output(d), t) }
fn k727(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun70::call(arg::<Vec<[u8; 3]>>(v, 0), arg::<[[u8; 3]; 2]>(v, 1)); (i, u727(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u728(r: ethabi::Result<([[u8; 4]; 2], Vec<[u8; 4]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e728(v: &[Val]) -> Vec<u8> { c10::functions::fun71::encode_input(arg::<Vec<[u8; 4]>>(v, 0), arg::<[[u8; 4]; 2]>(v, 1)) }
fn d728(d: &[u8], t: &[Ty]) -> Out { u728(c10::functions::fun71::decode_output(d), t) }
fn k728(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun71::call(arg::<Vec<[u8; 4]>>(v, 0), arg::<[[u8; 4]; 2]>(v, 1)); (i, u728(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u729(r: ethabi::Result<([[u8; 5]; 2], Vec<[u8; 5]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e729(v: &[Val]) -> Vec<u8> { c10::functions::fun72::encode_input(arg::<Vec<[u8; 5]>>(v, 0), arg::<[[u8; 5]; 2]>(v, 1)) }
fn d729(d: &[u8], t: &[Ty]) -> Out { u729(c10::functions::fun72::decode_output(d), t) }
fn k729(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun72::call(arg::<Vec<[u8; 5]>>(v, 0), arg::<[[u8; 5]; 2]>(v, 1)); (i, u729(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u730(r: ethabi::Result<([[u8; 6]; 2], Vec<[u8; 6]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e730(v: &[Val]) -> Vec<u8> { c10::functions::fun73::encode_input(arg::<Vec<[u8; 6]>>(v, 0), arg::<[[u8; 6]; 2]>(v, 1)) }
fn d730(d: &[u8], t: &[Ty]) -> Out { u730(c10::functions::fun73::decode_output(d), t) }
fn k730(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun73::call(arg::<Vec<[u8; 6]>>(v, 0), arg::<[[u8; 6]; 2]>(v, 1)); (i, u730(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u731(r: ethabi::Result<([[u8; 7]; 2], Vec<[u8; 7]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e731(v: &[Val]) -> Vec<u8> { c10::functions::fun74::encode_input(arg::<Vec<[u8; 7]>>(v, 0), arg::<[[u8; 7]; 2]>(v, 1)) }
fn d731(d: &[u8], t: &[Ty]) -> Out { u731(c10::functions::fun74::decode_output(d), t) }
fn k731(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun74::call(arg::<Vec<[u8; 7]>>(v, 0), arg::<[[u8; 7]; 2]>(v, 1)); (i, u731(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u732(r: ethabi::Result<([[u8; 8]; 2], Vec<[u8; 8]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e732(v: &[Val]) -> Vec<u8> { c10::functions::fun75::encode_input(arg::<Vec<[u8; 8]>>(v, 0), arg::<[[u8; 8]; 2]>(v, 1)) }
fn d732(d: &[u8], t: &[Ty]) -> Out { u732(c10::functions::fun75::decode_output(d), t) }
fn k732(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun75::call(arg::<Vec<[u8; 8]>>(v, 0), arg::<[[u8; 8]; 2]>(v, 1)); (i, u732(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u733(r: ethabi::Result<([[u8; 9]; 2], Vec<[u8; 9]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e733(v: &[Val]) -> Vec<u8> { c10::functions::fun76::encode_input(arg::<Vec<[u8; 9]>>(v, 0), arg::<[[u8; 9]; 2]>(v, 1)) }
fn d733(d: &[u8], t: &[Ty]) -> Out { u733(c10::functions::fun76::decode_output(d), t) }
fn k733(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun76::call(arg::<Vec<[u8; 9]>>(v, 0), arg::<[[u8; 9]; 2]>(v, 1)); (i, u733(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u734(r: ethabi::Result<([[u8; 10]; 2], Vec<[u8; 10]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e734(v: &[Val]) -> Vec<u8> { c10::functions::fun77::encode_input(arg::<Vec<[u8; 10]>>(v, 0), arg::<[[u8; 10]; 2]>(v, 1)) }
fn d734(d: &[u8], t: &[Ty]) -> Out { u734(c10::functions::fun77::decode_output(d), t) }
fn k734(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun77::call(arg::<Vec<[u8; 10]>>(v, 0), arg::<[[u8; 10]; 2]>(v, 1)); (i, u734(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u735(r: ethabi::Result<([[u8; 11]; 2], Vec<[u8; 11]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e735(v: &[Val]) -> Vec<u8> { c10::functions::fun78::encode_input(arg::<Vec<[u8; 11]>>(v, 0), arg::<[[u8; 11]; 2]>(v, 1)) }
fn d735(d: &[u8], t: &[Ty]) -> Out { u735(c10::functions::fun78::decode_output(d), t) }
fn k735(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun78::call(arg::<Vec<[u8; 11]>>(v, 0), arg::<[[u8; 11]; 2]>(v, 1)); (i, u735(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u736(r: ethabi::Result<([[u8; 12]; 2], Vec<[u8; 12]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e736(v: &[Val]) -> Vec<u8> { c10::functions::fun79::encode_input(arg::<Vec<[u8; 12]>>(v, 0), arg::<[[u8; 12]; 2]>(v, 1)) }
fn d736(d: &[u8], t: &[Ty]) -> Out { u736(c10::functions::fun79::decode_output(d), t) }
fn k736(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun79::call(arg::<Vec<[u8; 12]>>(v, 0), arg::<[[u8; 12]; 2]>(v, 1)); (i, u736(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u737(r: ethabi::Result<([[u8; 13]; 2], Vec<[u8; 13]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e737(v: &[Val]) -> Vec<u8> { c10::functions::fun80::encode_input(arg::<Vec<[u8; 13]>>(v, 0), arg::<[[u8; 13]; 2]>(v, 1)) }
fn d737(d: &[u8], t: &[Ty]) -> Out { u737(c10::functions::fun80::decode_output(d), t) }
fn k737(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun80::call(arg::<Vec<[u8; 13]>>(v, 0), arg::<[[u8; 13]; 2]>(v, 1)); (i, u737(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u738(r: ethabi::Result<([[u8; 14]; 2], Vec<[u8; 14]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e738(v: &[Val]) -> Vec<u8> { c10::functions::fun81::encode_input(arg::<Vec<[u8; 14]>>(v, 0), arg::<[[u8; 14]; 2]>(v, 1)) }
fn d738(d: &[u8], t: &[Ty]) -> Out { u738(c10::functions::fun81::decode_output(d), t) }
fn k738(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun81::call(arg::<Vec<[u8; 14]>>(v, 0), arg::<[[u8; 14]; 2]>(v, 1)); (i, u738(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u739(r: ethabi::Result<([[u8; 15]; 2], Vec<[u8; 15]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e739(v: &[Val]) -> Vec<u8> { c10::functions::fun82::encode_input(arg::<Vec<[u8; 15]>>(v, 0), arg::<[[u8; 15]; 2]>(v, 1)) }
fn d739(d: &[u8], t: &[Ty]) -> Out { u739(c10::functions::fun82::decode_output(d), t) }
fn k739(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun82::call(arg::<Vec<[u8; 15]>>(v, 0), arg::<[[u8; 15]; 2]>(v, 1)); (i, u739(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u740(r: ethabi::Result<([[u8; 16]; 2], Vec<[u8; 16]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e740(v: &[Val]) -> Vec<u8> { c10::functions::fun83::encode_input(arg::<Vec<[u8; 16]>>(v, 0), arg::<[[u8; 16]; 2]>(v, 1)) }
fn d740(d: &[u8], t: &[Ty]) -> Out { u740(c10::functions::fun83::decode_output(d), t) }
fn k740(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun83::call(arg::<Vec<[u8; 16]>>(v, 0), arg::<[[u8; 16]; 2]>(v, 1)); (i, u740(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u741(r: ethabi::Result<([[u8; 17]; 2], Vec<[u8; 17]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e741(v: &[Val]) -> Vec<u8> { c10::functions::fun84::encode_input(arg::<Vec<[u8; 17]>>(v, 0), arg::<[[u8; 17]; 2]>(v, 1)) }
fn d741(d: &[u8], t: &[Ty]) -> Out { u741(c10::functions::fun84::decode_output(d), t) }
fn k741(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun84::call(arg::<Vec<[u8; 17]>>(v, 0), arg::<[[u8; 17]; 2]>(v, 1)); (i, u741(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u742(r: ethabi::Result<([[u8; 18]; 2], Vec<[u8; 18]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e742(v: &[Val]) -> Vec<u8> { c10::functions::fun85::encode_input(arg::<Vec<[u8; 18]>>(v, 0), arg::<[[u8; 18]; 2]>(v, 1)) }
fn d742(d: &[u8], t: &[Ty]) -> Out { u742(c10::functions::fun85::decode_output(d), t) }
fn k742(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun85::call(arg::<Vec<[u8; 18]>>(v, 0), arg::<[[u8; 18]; 2]>(v, 1)); (i, u742(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u743(r: ethabi::Result<([[u8; 19]; 2], Vec<[u8; 19]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e743(v: &[Val]) -> Vec<u8> { c10::functions::fun86::encode_input(arg::<Vec<[u8; 19]>>(v, 0), arg::<[[u8; 19]; 2]>(v, 1)) }
fn d743(d: &[u8], t: &[Ty]) -> Out { u743(c10::functions::fun86::decode_output(d), t) }
fn k743(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun86::call(arg::<Vec<[u8; 19]>>(v, 0), arg::<[[u8; 19]; 2]>(v, 1)); (i, u743(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u744(r: ethabi::Result<([[u8; 20]; 2], Vec<[u8; 20]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e744(v: &[Val]) -> Vec<u8> { c10::functions::fun87::encode_input(arg::<Vec<[u8; 20]>>(v, 0), arg::<[[u8; 20]; 2]>(v, 1)) }
fn d744(d: &[u8], t: &[Ty]) -> Out { u744(c10::functions::fun87::decode_output(d), t) }
fn k744(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun87::call(arg::<Vec<[u8; 20]>>(v, 0), arg::<[[u8; 20]; 2]>(v, 1)); (i, u744(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u745(r: ethabi::Result<([[u8; 21]; 2], Vec<[u8; 21]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e745(v: &[Val]) -> Vec<u8> { c10::functions::fun88::encode_input(arg::<Vec<[u8; 21]>>(v, 0), arg::<[[u8; 21]; 2]>(v, 1)) }
fn d745(d: &[u8], t: &[Ty]) -> Out { u745(c10::functions::fun88::decode_output(d), t) }
fn k745(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun88::call(arg::<Vec<[u8; 21]>>(v, 0), arg::<[[u8; 21]; 2]>(v, 1)); (i, u745(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u746(r: ethabi::Result<([[u8; 22]; 2], Vec<[u8; 22]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e746(v: &[Val]) -> Vec<u8> { c10::functions::fun89::encode_input(arg::<Vec<[u8; 22]>>(v, 0), arg::<[[u8; 22]; 2]>(v, 1)) }
fn d746(d: &[u8], t: &[Ty]) -> Out { u746(c10::functions::fun89::decode_output(d), t) }
fn k746(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun89::call(arg::<Vec<[u8; 22]>>(v, 0), arg::<[[u8; 22]; 2]>(v, 1)); (i, u746(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u747(r: ethabi::Result<([[u8; 23]; 2], Vec<[u8; 23]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e747(v: &[Val]) -> Vec<u8> { c10::functions::fun90::encode_input(arg::<Vec<[u8; 23]>>(v, 0), arg::<[[u8; 23]; 2]>(v, 1)) }
fn d747(d: &[u8], t: &[Ty]) -> Out { u747(c10::functions::fun90::decode_output(d), t) }
fn k747(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun90::call(arg::<Vec<[u8; 23]>>(v, 0), arg::<[[u8; 23]; 2]>(v, 1)); (i, u747(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u748(r: ethabi::Result<([[u8; 24]; 2], Vec<[u8; 24]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e748(v: &[Val]) -> Vec<u8> { c10::functions::fun91::encode_input(arg::<Vec<[u8; 24]>>(v, 0), arg::<[[u8; 24]; 2]>(v, 1)) }
fn d748(d: &[u8], t: &[Ty]) -> Out { u748(c10::functions::fun91::decode_output(d), t) }
fn k748(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun91::call(arg::<Vec<[u8; 24]>>(v, 0), arg::<[[u8; 24]; 2]>(v, 1)); (i, u748(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u749(r: ethabi::Result<([[u8; 25]; 2], Vec<[u8; 25]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e749(v: &[Val]) -> Vec<u8> { c10::functions::fun92::encode_input(arg::<Vec<[u8; 25]>>(v, 0), arg::<[[u8; 25]; 2]>(v, 1)) }
fn d749(d: &[u8], t: &[Ty]) -> Out { u749(c10::functions::fun92::decode_output(d), t) }
fn k749(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun92::call(arg::<Vec<[u8; 25]>>(v, 0), arg::<[[u8; 25]; 2]>(v, 1)); (i, u749(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u750(r: ethabi::Result<([[u8; 26]; 2], Vec<[u8; 26]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e750(v: &[Val]) -> Vec<u8> { c10::functions::fun93::encode_input(arg::<Vec<[u8; 26]>>(v, 0), arg::<[[u8; 26]; 2]>(v, 1)) }
fn d750(d: &[u8], t: &[Ty]) -> Out { u750(c10::functions::fun93::decode_output(d), t) }
fn k750(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun93::call(arg::<Vec<[u8; 26]>>(v, 0), arg::<[[u8; 26]; 2]>(v, 1)); (i, u750(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u751(r: ethabi::Result<([[u8; 27]; 2], Vec<[u8; 27]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e751(v: &[Val]) -> Vec<u8> { c10::functions::fun94::encode_input(arg::<Vec<[u8; 27]>>(v, 0), arg::<[[u8; 27]; 2]>(v, 1)) }
fn d751(d: &[u8], t: &[Ty]) -> Out { u751(c10::functions::fun94::decode_output(d), t) }
fn k751(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun94::call(arg::<Vec<[u8; 27]>>(v, 0), arg::<[[u8; 27]; 2]>(v, 1)); (i, u751(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u752(r: ethabi::Result<([[u8; 28]; 2], Vec<[u8; 28]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e752(v: &[Val]) -> Vec<u8> { c10::functions::fun95::encode_input(arg::<Vec<[u8; 28]>>(v, 0), arg::<[[u8; 28]; 2]>(v, 1)) }
fn d752(d: &[u8], t: &[Ty]) -> Out { u752(c10::functions::fun95::decode_output(d), t) }
fn k752(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun95::call(arg::<Vec<[u8; 28]>>(v, 0), arg::<[[u8; 28]; 2]>(v, 1)); (i, u752(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u753(r: ethabi::Result<([[u8; 29]; 2], Vec<[u8; 29]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e753(v: &[Val]) -> Vec<u8> { c10::functions::fun96::encode_input(arg::<Vec<[u8; 29]>>(v, 0), arg::<[[u8; 29]; 2]>(v, 1)) }
fn d753(d: &[u8], t: &[Ty]) -> Out { u753(c10::functions::fun96::decode_output(d), t) }
fn k753(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun96::call(arg::<Vec<[u8; 29]>>(v, 0), arg::<[[u8; 29]; 2]>(v, 1)); (i, u753(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u754(r: ethabi::Result<([[u8; 30]; 2], Vec<[u8; 30]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e754(v: &[Val]) -> Vec<u8> { c10::functions::fun97::encode_input(arg::<Vec<[u8; 30]>>(v, 0), arg::<[[u8; 30]; 2]>(v, 1)) }
fn d754(d: &[u8], t: &[Ty]) -> Out { u754(c10::functions::fun97::decode_output(d), t) }
fn k754(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun97::call(arg::<Vec<[u8; 30]>>(v, 0), arg::<[[u8; 30]; 2]>(v, 1)); (i, u754(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u755(r: ethabi::Result<([[u8; 31]; 2], Vec<[u8; 31]>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e755(v: &[Val]) -> Vec<u8> { c10::functions::fun98::encode_input(arg::<Vec<[u8; 31]>>(v, 0), arg::<[[u8; 31]; 2]>(v, 1)) }
fn d755(d: &[u8], t: &[Ty]) -> Out { u755(c10::functions::fun98::decode_output(d), t) }
fn k755(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun98::call(arg::<Vec<[u8; 31]>>(v, 0), arg::<[[u8; 31]; 2]>(v, 1)); (i, u755(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u756(r: ethabi::Result<([Hash; 2], Vec<Hash>)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e756(v: &[Val]) -> Vec<u8> { c10::functions::fun99::encode_input(arg::<Vec<Hash>>(v, 0), arg::<[Hash; 2]>(v, 1)) }
fn d756(d: &[u8], t: &[Ty]) -> Out { u756(c10::functions::fun99::decode_output(d), t) }
fn k756(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c10::functions::fun99::call(arg::<Vec<Hash>>(v, 0), arg::<[Hash; 2]>(v, 1)); (i, u756(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u757(r: ethabi::Result<[[u8; 4]; 4]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e757(v: &[Val]) -> Vec<u8> { c11::functions::fun0::encode_input(arg::<[Uint; 4]>(v, 0)) }
fn d757(d: &[u8], t: &[Ty]) -> Out { u757(c11::functions::fun0::decode_output(d), t) }
fn k757(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun0::call(arg::<[Uint; 4]>(v, 0)); (i, u757(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u758(r: ethabi::Result<([String; 4], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e758(v: &[Val]) -> Vec<u8> { c11::functions::fun1::encode_input(arg::<[String; 4]>(v, 0), arg::<bool>(v, 1)) }
fn d758(d: &[u8], t: &[Ty]) -> Out { u758(c11::functions::fun1::decode_output(d), t) }
fn k758(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun1::call(arg::<[String; 4]>(v, 0), arg::<bool>(v, 1)); (i, u758(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u759(r: ethabi::Result<Vec<[Uint; 4]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e759(v: &[Val]) -> Vec<u8> { c11::functions::fun2::encode_input(arg::<[Vec<Hash>; 4]>(v, 0)) }
fn d759(d: &[u8], t: &[Ty]) -> Out { u759(c11::functions::fun2::decode_output(d), t) }
fn k759(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun2::call(arg::<[Vec<Hash>; 4]>(v, 0)); (i, u759(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u760(r: ethabi::Result<[[u8; 4]; 5]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e760(v: &[Val]) -> Vec<u8> { c11::functions::fun3::encode_input(arg::<[Uint; 5]>(v, 0)) }
fn d760(d: &[u8], t: &[Ty]) -> Out { u760(c11::functions::fun3::decode_output(d), t) }
fn k760(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun3::call(arg::<[Uint; 5]>(v, 0)); (i, u760(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u761(r: ethabi::Result<([String; 5], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e761(v: &[Val]) -> Vec<u8> { c11::functions::fun4::encode_input(arg::<[String; 5]>(v, 0), arg::<bool>(v, 1)) }
fn d761(d: &[u8], t: &[Ty]) -> Out { u761(c11::functions::fun4::decode_output(d), t) }
fn k761(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun4::call(arg::<[String; 5]>(v, 0), arg::<bool>(v, 1)); (i, u761(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u762(r: ethabi::Result<Vec<[Uint; 5]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e762(v: &[Val]) -> Vec<u8> { c11::functions::fun5::encode_input(arg::<[Vec<Hash>; 5]>(v, 0)) }
fn d762(d: &[u8], t: &[Ty]) -> Out { u762(c11::functions::fun5::decode_output(d), t) }
fn k762(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun5::call(arg::<[Vec<Hash>; 5]>(v, 0)); (i, u762(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u763(r: ethabi::Result<[[u8; 4]; 6]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e763(v: &[Val]) -> Vec<u8> { c11::functions::fun6::encode_input(arg::<[Uint; 6]>(v, 0)) }
fn d763(d: &[u8], t: &[Ty]) -> Out { u763(c11::functions::fun6::decode_output(d), t) }
fn k763(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun6::call(arg::<[Uint; 6]>(v, 0)); (i, u763(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u764(r: ethabi::Result<([String; 6], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e764(v: &[Val]) -> Vec<u8> { c11::functions::fun7::encode_input(arg::<[String; 6]>(v, 0), arg::<bool>(v, 1)) }
fn d764(d: &[u8], t: &[Ty]) -> Out { u764(c11::functions::fun7::decode_output(d), t) }
fn k764(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun7::call(arg::<[String; 6]>(v, 0), arg::<bool>(v, 1)); (i, u764(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u765(r: ethabi::Result<Vec<[Uint; 6]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e765(v: &[Val]) -> Vec<u8> { c11::functions::fun8::encode_input(arg::<[Vec<Hash>; 6]>(v, 0)) }
fn d765(d: &[u8], t: &[Ty]) -> Out { u765(c11::functions::fun8::decode_output(d), t) }
fn k765(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun8::call(arg::<[Vec<Hash>; 6]>(v, 0)); (i, u765(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u766(r: ethabi::Result<[[u8; 4]; 7]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e766(v: &[Val]) -> Vec<u8> { c11::functions::fun9::encode_input(arg::<[Uint; 7]>(v, 0)) }
fn d766(d: &[u8], t: &[Ty]) -> Out { u766(c11::functions::fun9::decode_output(d), t) }
fn k766(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun9::call(arg::<[Uint; 7]>(v, 0)); (i, u766(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u767(r: ethabi::Result<([String; 7], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e767(v: &[Val]) -> Vec<u8> { c11::functions::fun10::encode_input(arg::<[String; 7]>(v, 0), arg::<bool>(v, 1)) }
fn d767(d: &[u8], t: &[Ty]) -> Out { u767(c11::functions::fun10::decode_output(d), t) }
fn k767(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun10::call(arg::<[String; 7]>(v, 0), arg::<bool>(v, 1)); (i, u767(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u768(r: ethabi::Result<Vec<[Uint; 7]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e768(v: &[Val]) -> Vec<u8> { c11::functions::fun11::encode_input(arg::<[Vec<Hash>; 7]>(v, 0)) }
fn d768(d: &[u8], t: &[Ty]) -> Out { u768(c11::functions::fun11::decode_output(d), t) }
fn k768(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun11::call(arg::<[Vec<Hash>; 7]>(v, 0)); (i, u768(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u769(r: ethabi::Result<[[u8; 4]; 8]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e769(v: &[Val]) -> Vec<u8> { c11::functions::fun12::encode_input(arg::<[Uint; 8]>(v, 0)) }
fn d769(d: &[u8], t: &[Ty]) -> Out { u769(c11::functions::fun12::decode_output(d), t) }
fn k769(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun12::call(arg::<[Uint; 8]>(v, 0)); (i, u769(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u770(r: ethabi::Result<([String; 8], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e770(v: &[Val]) -> Vec<u8> { c11::functions::fun13::encode_input(arg::<[String; 8]>(v, 0), arg::<bool>(v, 1)) }
fn d770(d: &[u8], t: &[Ty]) -> Out { u770(c11::functions::fun13::decode_output(d), t) }
fn k770(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun13::call(arg::<[String; 8]>(v, 0), arg::<bool>(v, 1)); (i, u770(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u771(r: ethabi::Result<Vec<[Uint; 8]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e771(v: &[Val]) -> Vec<u8> { c11::functions::fun14::encode_input(arg::<[Vec<Hash>; 8]>(v, 0)) }
fn d771(d: &[u8], t: &[Ty]) -> Out { u771(c11::functions::fun14::decode_output(d), t) }
fn k771(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun14::call(arg::<[Vec<Hash>; 8]>(v, 0)); (i, u771(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u772(r: ethabi::Result<[[u8; 4]; 9]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e772(v: &[Val]) -> Vec<u8> { c11::functions::fun15::encode_input(arg::<[Uint; 9]>(v, 0)) }
fn d772(d: &[u8], t: &[Ty]) -> Out { u772(c11::functions::fun15::decode_output(d), t) }
fn k772(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun15::call(arg::<[Uint; 9]>(v, 0)); (i, u772(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u773(r: ethabi::Result<([String; 9], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e773(v: &[Val]) -> Vec<u8> { c11::functions::fun16::encode_input(arg::<[String; 9]>(v, 0), arg::<bool>(v, 1)) }
fn d773(d: &[u8], t: &[Ty]) -> Out { u773(c11::functions::fun16::decode_output(d), t) }
fn k773(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun16::call(arg::<[String; 9]>(v, 0), arg::<bool>(v, 1)); (i, u773(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u774(r: ethabi::Result<Vec<[Uint; 9]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e774(v: &[Val]) -> Vec<u8> { c11::functions::fun17::encode_input(arg::<[Vec<Hash>; 9]>(v, 0)) }
fn d774(d: &[u8], t: &[Ty]) -> Out { u774(c11::functions::fun17::decode_output(d), t) }
fn k774(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun17::call(arg::<[Vec<Hash>; 9]>(v, 0)); (i, u774(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u775(r: ethabi::Result<[[u8; 4]; 10]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e775(v: &[Val]) -> Vec<u8> { c11::functions::fun18::encode_input(arg::<[Uint; 10]>(v, 0)) }
fn d775(d: &[u8], t: &[Ty]) -> Out { u775(c11::functions::fun18::decode_output(d), t) }
fn k775(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun18::call(arg::<[Uint; 10]>(v, 0)); (i, u775(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u776(r: ethabi::Result<([String; 10], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e776(v: &[Val]) -> Vec<u8> { c11::functions::fun19::encode_input(arg::<[String; 10]>(v, 0), arg::<bool>(v, 1)) }
fn d776(d: &[u8], t: &[Ty]) -> Out { u776(c11::functions::fun19::decode_output(d), t) }
fn k776(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun19::call(arg::<[String; 10]>(v, 0), arg::<bool>(v, 1)); (i, u776(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u777(r: ethabi::Result<Vec<[Uint; 10]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e777(v: &[Val]) -> Vec<u8> { c11::functions::fun20::encode_input(arg::<[Vec<Hash>; 10]>(v, 0)) }
fn d777(d: &[u8], t: &[Ty]) -> Out { u777(c11::functions::fun20::decode_output(d), t) }
fn k777(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun20::call(arg::<[Vec<Hash>; 10]>(v, 0)); (i, u777(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u778(r: ethabi::Result<[[u8; 4]; 11]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e778(v: &[Val]) -> Vec<u8> { c11::functions::fun21::encode_input(arg::<[Uint; 11]>(v, 0)) }
fn d778(d: &[u8], t: &[Ty]) -> Out { u778(c11::functions::fun21::decode_output(d), t) }
fn k778(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun21::call(arg::<[Uint; 11]>(v, 0)); (i, u778(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u779(r: ethabi::Result<([String; 11], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e779(v: &[Val]) -> Vec<u8> { c11::functions::fun22::encode_input(arg::<[String; 11]>(v, 0), arg::<bool>(v, 1)) }
fn d779(d: &[u8], t: &[Ty]) -> Out { u779(c11::functions::fun22::decode_output(d), t) }
fn k779(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun22::call(arg::<[String; 11]>(v, 0), arg::<bool>(v, 1)); (i, u779(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u780(r: ethabi::Result<Vec<[Uint; 11]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e780(v: &[Val]) -> Vec<u8> { c11::functions::fun23::encode_input(arg::<[Vec<Hash>; 11]>(v, 0)) }
fn d780(d: &[u8], t: &[Ty]) -> Out { u780(c11::functions::fun23::decode_output(d), t) }
fn k780(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun23::call(arg::<[Vec<Hash>; 11]>(v, 0)); (i, u780(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u781(r: ethabi::Result<[[u8; 4]; 12]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e781(v: &[Val]) -> Vec<u8> { c11::functions::fun24::encode_input(arg::<[Uint; 12]>(v, 0)) }
fn d781(d: &[u8], t: &[Ty]) -> Out { u781(c11::functions::fun24::decode_output(d), t) }
fn k781(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun24::call(arg::<[Uint; 12]>(v, 0)); (i, u781(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u782(r: ethabi::Result<([String; 12], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e782(v: &[Val]) -> Vec<u8> { c11::functions::fun25::encode_input(arg::<[String; 12]>(v, 0), arg::<bool>(v, 1)) }
fn d782(d: &[u8], t: &[Ty]) -> Out { u782(c11::functions::fun25::decode_output(d), t) }
fn k782(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun25::call(arg::<[String; 12]>(v, 0), arg::<bool>(v, 1)); (i, u782(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u783(r: ethabi::Result<Vec<[Uint; 12]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e783(v: &[Val]) -> Vec<u8> { c11::functions::fun26::encode_input(arg::<[Vec<Hash>; 12]>(v, 0)) }
fn d783(d: &[u8], t: &[Ty]) -> Out { u783(c11::functions::fun26::decode_output(d), t) }
fn k783(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun26::call(arg::<[Vec<Hash>; 12]>(v, 0)); (i, u783(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u784(r: ethabi::Result<[[u8; 4]; 13]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e784(v: &[Val]) -> Vec<u8> { c11::functions::fun27::encode_input(arg::<[Uint; 13]>(v, 0)) }
fn d784(d: &[u8], t: &[Ty]) -> Out { u784(c11::functions::fun27::decode_output(d), t) }
fn k784(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun27::call(arg::<[Uint; 13]>(v, 0)); (i, u784(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u785(r: ethabi::Result<([String; 13], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e785(v: &[Val]) -> Vec<u8> { c11::functions::fun28::encode_input(arg::<[String; 13]>(v, 0), arg::<bool>(v, 1)) }
fn d785(d: &[u8], t: &[Ty]) -> Out { u785(c11::functions::fun28::decode_output(d), t) }
fn k785(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun28::call(arg::<[String; 13]>(v, 0), arg::<bool>(v, 1)); (i, u785(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u786(r: ethabi::Result<Vec<[Uint; 13]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e786(v: &[Val]) -> Vec<u8> { c11::functions::fun29::encode_input(arg::<[Vec<Hash>; 13]>(v, 0)) }
fn d786(d: &[u8], t: &[Ty]) -> Out { u786(c11::functions::fun29::decode_output(d), t) }
fn k786(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun29::call(arg::<[Vec<Hash>; 13]>(v, 0)); (i, u786(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u787(r: ethabi::Result<[[u8; 4]; 14]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e787(v: &[Val]) -> Vec<u8> { c11::functions::fun30::encode_input(arg::<[Uint; 14]>(v, 0)) }
fn d787(d: &[u8], t: &[Ty]) -> Out { u787(c11::functions::fun30::decode_output(d), t) }
fn k787(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun30::call(arg::<[Uint; 14]>(v, 0)); (i, u787(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u788(r: ethabi::Result<([String; 14], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e788(v: &[Val]) -> Vec<u8> { c11::functions::fun31::encode_input(arg::<[String; 14]>(v, 0), arg::<bool>(v, 1)) }
fn d788(d: &[u8], t: &[Ty]) -> Out { u788(c11::functions::fun31::decode_output(d), t) }
fn k788(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun31::call(arg::<[String; 14]>(v, 0), arg::<bool>(v, 1)); (i, u788(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u789(r: ethabi::Result<Vec<[Uint; 14]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e789(v: &[Val]) -> Vec<u8> { c11::functions::fun32::encode_input(arg::<[Vec<Hash>; 14]>(v, 0)) }
fn d789(d: &[u8], t: &[Ty]) -> Out { u789(c11::functions::fun32::decode_output(d), t) }
fn k789(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun32::call(arg::<[Vec<Hash>; 14]>(v, 0)); (i, u789(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u790(r: ethabi::Result<[[u8; 4]; 15]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e790(v: &[Val]) -> Vec<u8> { c11::functions::fun33::encode_input(arg::<[Uint; 15]>(v, 0)) }
fn d790(d: &[u8], t: &[Ty]) -> Out { u790(c11::functions::fun33::decode_output(d), t) }
fn k790(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun33::call(arg::<[Uint; 15]>(v, 0)); (i, u790(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u791(r: ethabi::Result<([String; 15], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e791(v: &[Val]) -> Vec<u8> { c11::functions::fun34::encode_input(arg::<[String; 15]>(v, 0), arg::<bool>(v, 1)) }
fn d791(d: &[u8], t: &[Ty]) -> Out { u791(c11::functions::fun34::decode_output(d), t) }
fn k791(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun34::call(arg::<[String; 15]>(v, 0), arg::<bool>(v, 1)); (i, u791(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u792(r: ethabi::Result<Vec<[Uint; 15]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e792(v: &[Val]) -> Vec<u8> { c11::functions::fun35::encode_input(arg::<[Vec<Hash>; 15]>(v, 0)) }
fn d792(d: &[u8], t: &[Ty]) -> Out { u792(c11::functions::fun35::decode_output(d), t) }
fn k792(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun35::call(arg::<[Vec<Hash>; 15]>(v, 0)); (i, u792(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u793(r: ethabi::Result<[[u8; 4]; 16]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e793(v: &[Val]) -> Vec<u8> { c11::functions::fun36::encode_input(arg::<[Uint; 16]>(v, 0)) }
fn d793(d: &[u8], t: &[Ty]) -> Out { u793(c11::functions::fun36::decode_output(d), t) }
fn k793(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun36::call(arg::<[Uint; 16]>(v, 0)); (i, u793(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u794(r: ethabi::Result<([String; 16], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e794(v: &[Val]) -> Vec<u8> { c11::functions::fun37::encode_input(arg::<[String; 16]>(v, 0), arg::<bool>(v, 1)) }
fn d794(d: &[u8], t: &[Ty]) -> Out { u794(c11::functions::fun37::decode_output(d), t) }
fn k794(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun37::call(arg::<[String; 16]>(v, 0), arg::<bool>(v, 1)); (i, u794(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u795(r: ethabi::Result<Vec<[Uint; 16]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e795(v: &[Val]) -> Vec<u8> { c11::functions::fun38::encode_input(arg::<[Vec<Hash>; 16]>(v, 0)) }
fn d795(d: &[u8], t: &[Ty]) -> Out { u795(c11::functions::fun38::decode_output(d), t) }
fn k795(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun38::call(arg::<[Vec<Hash>; 16]>(v, 0)); (i, u795(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u796(r: ethabi::Result<[[u8; 4]; 17]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e796(v: &[Val]) -> Vec<u8> { c11::functions::fun39::encode_input(arg::<[Uint; 17]>(v, 0)) }
fn d796(d: &[u8], t: &[Ty]) -> Out { u796(c11::functions::fun39::decode_output(d), t) }
fn k796(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun39::call(arg::<[Uint; 17]>(v, 0)); (i, u796(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u797(r: ethabi::Result<([String; 17], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e797(v: &[Val]) -> Vec<u8> { c11::functions::fun40::encode_input(arg::<[String; 17]>(v, 0), arg::<bool>(v, 1)) }
fn d797(d: &[u8], t: &[Ty]) -> Out { u797(c11::functions::fun40::decode_output(d), t) }
fn k797(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun40::call(arg::<[String; 17]>(v, 0), arg::<bool>(v, 1)); (i, u797(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u798(r: ethabi::Result<Vec<[Uint; 17]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e798(v: &[Val]) -> Vec<u8> { c11::functions::fun41::encode_input(arg::<[Vec<Hash>; 17]>(v, 0)) }
fn d798(d: &[u8], t: &[Ty]) -> Out { u798(c11::functions::fun41::decode_output(d), t) }
fn k798(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun41::call(arg::<[Vec<Hash>; 17]>(v, 0)); (i, u798(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u799(r: ethabi::Result<[[u8; 4]; 18]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e799(v: &[Val]) -> Vec<u8> { c11::functions::fun42::encode_input(arg::<[Uint; 18]>(v, 0)) }
fn d799(d: &[u8], t: &[Ty]) -> Out { u799(c11::functions::fun42::decode_output(d), t) }
fn k799(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun42::call(arg::<[Uint; 18]>(v, 0)); (i, u799(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u800(r: ethabi::Result<([String; 18], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e800(v: &[Val]) -> Vec<u8> { c11::functions::fun43::encode_input(arg::<[String; 18]>(v, 0), arg::<bool>(v, 1)) }
fn d800(d: &[u8], t: &[Ty]) -> Out { u800(c11::functions::fun43::decode_output(d), t) }
fn k800(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun43::call(arg::<[String; 18]>(v, 0), arg::<bool>(v, 1)); (i, u800(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u801(r: ethabi::Result<Vec<[Uint; 18]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e801(v: &[Val]) -> Vec<u8> { c11::functions::fun44::encode_input(arg::<[Vec<Hash>; 18]>(v, 0)) }
fn d801(d: &[u8], t: &[Ty]) -> Out { u801(c11::functions::fun44::decode_output(d), t) }
fn k801(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun44::call(arg::<[Vec<Hash>; 18]>(v, 0)); (i, u801(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u802(r: ethabi::Result<[[u8; 4]; 19]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e802(v: &[Val]) -> Vec<u8> { c11::functions::fun45::encode_input(arg::<[Uint; 19]>(v, 0)) }
fn d802(d: &[u8], t: &[Ty]) -> Out { u802(c11::functions::fun45::decode_output(d), t) }
fn k802(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun45::call(arg::<[Uint; 19]>(v, 0)); (i, u802(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u803(r: ethabi::Result<([String; 19], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e803(v: &[Val]) -> Vec<u8> { c11::functions::fun46::encode_input(arg::<[String; 19]>(v, 0), arg::<bool>(v, 1)) }
fn d803(d: &[u8], t: &[Ty]) -> Out { u803(c11::functions::fun46::decode_output(d), t) }
fn k803(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun46::call(arg::<[String; 19]>(v, 0), arg::<bool>(v, 1)); (i, u803(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u804(r: ethabi::Result<Vec<[Uint; 19]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e804(v: &[Val]) -> Vec<u8> { c11::functions::fun47::encode_input(arg::<[Vec<Hash>; 19]>(v, 0)) }
fn d804(d: &[u8], t: &[Ty]) -> Out { u804(c11::functions::fun47::decode_output(d), t) }
fn k804(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun47::call(arg::<[Vec<Hash>; 19]>(v, 0)); (i, u804(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u805(r: ethabi::Result<[[u8; 4]; 20]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e805(v: &[Val]) -> Vec<u8> { c11::functions::fun48::encode_input(arg::<[Uint; 20]>(v, 0)) }
fn d805(d: &[u8], t: &[Ty]) -> Out { u805(c11::functions::fun48::decode_output(d), t) }
fn k805(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun48::call(arg::<[Uint; 20]>(v, 0)); (i, u805(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u806(r: ethabi::Result<([String; 20], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e806(v: &[Val]) -> Vec<u8> { c11::functions::fun49::encode_input(arg::<[String; 20]>(v, 0), arg::<bool>(v, 1)) }
fn d806(d: &[u8], t: &[Ty]) -> Out { u806(c11::functions::fun49::decode_output(d), t) }
fn k806(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun49::call(arg::<[String; 20]>(v, 0), arg::<bool>(v, 1)); (i, u806(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u807(r: ethabi::Result<Vec<[Uint; 20]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e807(v: &[Val]) -> Vec<u8> { c11::functions::fun50::encode_input(arg::<[Vec<Hash>; 20]>(v, 0)) }
fn d807(d: &[u8], t: &[Ty]) -> Out { u807(c11::functions::fun50::decode_output(d), t) }
fn k807(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun50::call(arg::<[Vec<Hash>; 20]>(v, 0)); (i, u807(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u808(r: ethabi::Result<[[u8; 4]; 21]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e808(v: &[Val]) -> Vec<u8> { c11::functions::fun51::encode_input(arg::<[Uint; 21]>(v, 0)) }
fn d808(d: &[u8], t: &[Ty]) -> Out { u808(c11::functions::fun51::decode_output(d), t) }
fn k808(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun51::call(arg::<[Uint; 21]>(v, 0)); (i, u808(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u809(r: ethabi::Result<([String; 21], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e809(v: &[Val]) -> Vec<u8> { c11::functions::fun52::encode_input(arg::<[String; 21]>(v, 0), arg::<bool>(v, 1)) }
fn d809(d: &[u8], t: &[Ty]) -> Out { u809(c11::functions::fun52::decode_output(d), t) }
fn k809(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun52::call(arg::<[String; 21]>(v, 0), arg::<bool>(v, 1)); (i, u809(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u810(r: ethabi::Result<Vec<[Uint; 21]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e810(v: &[Val]) -> Vec<u8> { c11::functions::fun53::encode_input(arg::<[Vec<Hash>; 21]>(v, 0)) }
fn d810(d: &[u8], t: &[Ty]) -> Out { u810(c11::functions::fun53::decode_output(d), t) }
fn k810(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun53::call(arg::<[Vec<Hash>; 21]>(v, 0)); (i, u810(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u811(r: ethabi::Result<[[u8; 4]; 22]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e811(v: &[Val]) -> Vec<u8> { c11::functions::fun54::encode_input(arg::<[Uint; 22]>(v, 0)) }
fn d811(d: &[u8], t: &[Ty]) -> Out { u811(c11::functions::fun54::decode_output(d), t) }
fn k811(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun54::call(arg::<[Uint; 22]>(v, 0)); (i, u811(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u812(r: ethabi::Result<([String; 22], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e812(v: &[Val]) -> Vec<u8> { c11::functions::fun55::encode_input(arg::<[String; 22]>(v, 0), arg::<bool>(v, 1)) }
fn d812(d: &[u8], t: &[Ty]) -> Out { u812(c11::functions::fun55::decode_output(d), t) }
fn k812(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun55::call(arg::<[String; 22]>(v, 0), arg::<bool>(v, 1)); (i, u812(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u813(r: ethabi::Result<Vec<[Uint; 22]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e813(v: &[Val]) -> Vec<u8> { c11::functions::fun56::encode_input(arg::<[Vec<Hash>; 22]>(v, 0)) }
fn d813(d: &[u8], t: &[Ty]) -> Out { u813(c11::functions::fun56::decode_output(d), t) }
fn k813(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun56::call(arg::<[Vec<Hash>; 22]>(v, 0)); (i, u813(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u814(r: ethabi::Result<[[u8; 4]; 23]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e814(v: &[Val]) -> Vec<u8> { c11::functions::fun57::encode_input(arg::<[Uint; 23]>(v, 0)) }
fn d814(d: &[u8], t: &[Ty]) -> Out { u814(c11::functions::fun57::decode_output(d), t) }
fn k814(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun57::call(arg::<[Uint; 23]>(v, 0)); (i, u814(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u815(r: ethabi::Result<([String; 23], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e815(v: &[Val]) -> Vec<u8> { c11::functions::fun58::encode_input(arg::<[String; 23]>(v, 0), arg::<bool>(v, 1)) }
fn d815(d: &[u8], t: &[Ty]) -> Out { u815(c11::functions::fun58::decode_output(d), t) }
fn k815(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun58::call(arg::<[String; 23]>(v, 0), arg::<bool>(v, 1)); (i, u815(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u816(r: ethabi::Result<Vec<[Uint; 23]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e816(v: &[Val]) -> Vec<u8> { c11::functions::fun59::encode_input(arg::<[Vec<Hash>; 23]>(v, 0)) }
fn d816(d: &[u8], t: &[Ty]) -> Out { u816(c11::functions::fun59::decode_output(d), t) }
fn k816(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun59::call(arg::<[Vec<Hash>; 23]>(v, 0)); (i, u816(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u817(r: ethabi::Result<[[u8; 4]; 24]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e817(v: &[Val]) -> Vec<u8> { c11::functions::fun60::encode_input(arg::<[Uint; 24]>(v, 0)) }
fn d817(d: &[u8], t: &[Ty]) -> Out { u817(c11::functions::fun60::decode_output(d), t) }
fn k817(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun60::call(arg::<[Uint; 24]>(v, 0)); (i, u817(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u818(r: ethabi::Result<([String; 24], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e818(v: &[Val]) -> Vec<u8> { c11::functions::fun61::encode_input(arg::<[String; 24]>(v, 0), arg::<bool>(v, 1)) }
fn d818(d: &[u8], t: &[Ty]) -> Out { u818(c11::functions::fun61::decode_output(d), t) }
fn k818(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun61::call(arg::<[String; 24]>(v, 0), arg::<bool>(v, 1)); (i, u818(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u819(r: ethabi::Result<Vec<[Uint; 24]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e819(v: &[Val]) -> Vec<u8> { c11::functions::fun62::encode_input(arg::<[Vec<Hash>; 24]>(v, 0)) }
fn d819(d: &[u8], t: &[Ty]) -> Out { u819(c11::functions::fun62::decode_output(d), t) }
fn k819(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun62::call(arg::<[Vec<Hash>; 24]>(v, 0)); (i, u819(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u820(r: ethabi::Result<[[u8; 4]; 25]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e820(v: &[Val]) -> Vec<u8> { c11::functions::fun63::encode_input(arg::<[Uint; 25]>(v, 0)) }
fn d820(d: &[u8], t: &[Ty]) -> Out { u820(c11::functions::fun63::decode_output(d), t) }
fn k820(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun63::call(arg::<[Uint; 25]>(v, 0)); (i, u820(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u821(r: ethabi::Result<([String; 25], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e821(v: &[Val]) -> Vec<u8> { c11::functions::fun64::encode_input(arg::<[String; 25]>(v, 0), arg::<bool>(v, 1)) }
fn d821(d: &[u8], t: &[Ty]) -> Out { u821(c11::functions::fun64::decode_output(d), t) }
fn k821(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun64::call(arg::<[String; 25]>(v, 0), arg::<bool>(v, 1)); (i, u821(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u822(r: ethabi::Result<Vec<[Uint; 25]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e822(v: &[Val]) -> Vec<u8> { c11::functions::fun65::encode_input(arg::<[Vec<Hash>; 25]>(v, 0)) }
fn d822(d: &[u8], t: &[Ty]) -> Out { u822(c11::functions::fun65::decode_output(d), t) }
fn k822(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun65::call(arg::<[Vec<Hash>; 25]>(v, 0)); (i, u822(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u823(r: ethabi::Result<[[u8; 4]; 26]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e823(v: &[Val]) -> Vec<u8> { c11::functions::fun66::encode_input(arg::<[Uint; 26]>(v, 0)) }
fn d823(d: &[u8], t: &[Ty]) -> Out { u823(c11::functions::fun66::decode_output(d), t) }
fn k823(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun66::call(arg::<[Uint; 26]>(v, 0)); (i, u823(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u824(r: ethabi::Result<([String; 26], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e824(v: &[Val]) -> Vec<u8> { c11::functions::fun67::encode_input(arg::<[String; 26]>(v, 0), arg::<bool>(v, 1)) }
fn d824(d: &[u8], t: &[Ty]) -> Out { u824(c11::functions::fun67::decode_output(d), t) }
fn k824(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun67::call(arg::<[String; 26]>(v, 0), arg::<bool>(v, 1)); (i, u824(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u825(r: ethabi::Result<Vec<[Uint; 26]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e825(v: &[Val]) -> Vec<u8> { c11::functions::fun68::encode_input(arg::<[Vec<Hash>; 26]>(v, 0)) }
fn d825(d: &[u8], t: &[Ty]) -> Out { u825(c11::functions::fun68::decode_output(d), t) }
fn k825(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun68::call(arg::<[Vec<Hash>; 26]>(v, 0)); (i, u825(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u826(r: ethabi::Result<[[u8; 4]; 27]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e826(v: &[Val]) -> Vec<u8> { c11::functions::fun69::encode_input(arg::<[Uint; 27]>(v, 0)) }
fn d826(d: &[u8], t: &[Ty]) -> Out { u826(c11::functions::fun69::decode_output(d), t) }
fn k826(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun69::call(arg::<[Uint; 27]>(v, 0)); (i, u826(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u827(r: ethabi::Result<([String; 27], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e827(v: &[Val]) -> Vec<u8> { c11::functions::fun70::encode_input(arg::<[String; 27]>(v, 0), arg::<bool>(v, 1)) }
fn d827(d: &[u8], t: &[Ty]) -> Out { u827(c11::functions::fun70::decode_output(d), t) }
fn k827(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun70::call(arg::<[String; 27]>(v, 0), arg::<bool>(v, 1)); (i, u827(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u828(r: ethabi::Result<Vec<[Uint; 27]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e828(v: &[Val]) -> Vec<u8> { c11::functions::fun71::encode_input(arg::<[Vec<Hash>; 27]>(v, 0)) }
fn d828(d: &[u8], t: &[Ty]) -> Out { u828(c11::functions::fun71::decode_output(d), t) }
fn k828(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun71::call(arg::<[Vec<Hash>; 27]>(v, 0)); (i, u828(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u829(r: ethabi::Result<[[u8; 4]; 28]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e829(v: &[Val]) -> Vec<u8> { c11::functions::fun72::encode_input(arg::<[Uint; 28]>(v, 0)) }
fn d829(d: &[u8], t: &[Ty]) -> Out { u829(c11::functions::fun72::decode_output(d), t) }
fn k829(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun72::call(arg::<[Uint; 28]>(v, 0)); (i, u829(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u830(r: ethabi::Result<([String; 28], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e830(v: &[Val]) -> Vec<u8> { c11::functions::fun73::encode_input(arg::<[String; 28]>(v, 0), arg::<bool>(v, 1)) }
fn d830(d: &[u8], t: &[Ty]) -> Out { u830(c11::functions::fun73::decode_output(d), t) }
fn k830(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun73::call(arg::<[String; 28]>(v, 0), arg::<bool>(v, 1)); (i, u830(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u831(r: ethabi::Result<Vec<[Uint; 28]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e831(v: &[Val]) -> Vec<u8> { c11::functions::fun74::encode_input(arg::<[Vec<Hash>; 28]>(v, 0)) }
fn d831(d: &[u8], t: &[Ty]) -> Out { u831(c11::functions::fun74::decode_output(d), t) }
fn k831(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun74::call(arg::<[Vec<Hash>; 28]>(v, 0)); (i, u831(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u832(r: ethabi::Result<[[u8; 4]; 29]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e832(v: &[Val]) -> Vec<u8> { c11::functions::fun75::encode_input(arg::<[Uint; 29]>(v, 0)) }
fn d832(d: &[u8], t: &[Ty]) -> Out { u832(c11::functions::fun75::decode_output(d), t) }
fn k832(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun75::call(arg::<[Uint; 29]>(v, 0)); (i, u832(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u833(r: ethabi::Result<([String; 29], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e833(v: &[Val]) -> Vec<u8> { c11::functions::fun76::encode_input(arg::<[String; 29]>(v, 0), arg::<bool>(v, 1)) }
fn d833(d: &[u8], t: &[Ty]) -> Out { u833(c11::functions::fun76::decode_output(d), t) }
fn k833(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun76::call(arg::<[String; 29]>(v, 0), arg::<bool>(v, 1)); (i, u833(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u834(r: ethabi::Result<Vec<[Uint; 29]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e834(v: &[Val]) -> Vec<u8> { c11::functions::fun77::encode_input(arg::<[Vec<Hash>; 29]>(v, 0)) }
fn d834(d: &[u8], t: &[Ty]) -> Out { u834(c11::functions::fun77::decode_output(d), t) }
fn k834(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun77::call(arg::<[Vec<Hash>; 29]>(v, 0)); (i, u834(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u835(r: ethabi::Result<[[u8; 4]; 30]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e835(v: &[Val]) -> Vec<u8> { c11::functions::fun78::encode_input(arg::<[Uint; 30]>(v, 0)) }
fn d835(d: &[u8], t: &[Ty]) -> Out { u835(c11::functions::fun78::decode_output(d), t) }
fn k835(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun78::call(arg::<[Uint; 30]>(v, 0)); (i, u835(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u836(r: ethabi::Result<([String; 30], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e836(v: &[Val]) -> Vec<u8> { c11::functions::fun79::encode_input(arg::<[String; 30]>(v, 0), arg::<bool>(v, 1)) }
fn d836(d: &[u8], t: &[Ty]) -> Out { u836(c11::functions::fun79::decode_output(d), t) }
fn k836(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun79::call(arg::<[String; 30]>(v, 0), arg::<bool>(v, 1)); (i, u836(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u837(r: ethabi::Result<Vec<[Uint; 30]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e837(v: &[Val]) -> Vec<u8> { c11::functions::fun80::encode_input(arg::<[Vec<Hash>; 30]>(v, 0)) }
fn d837(d: &[u8], t: &[Ty]) -> Out { u837(c11::functions::fun80::decode_output(d), t) }
fn k837(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun80::call(arg::<[Vec<Hash>; 30]>(v, 0)); (i, u837(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u838(r: ethabi::Result<[[u8; 4]; 31]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e838(v: &[Val]) -> Vec<u8> { c11::functions::fun81::encode_input(arg::<[Uint; 31]>(v, 0)) }
fn d838(d: &[u8], t: &[Ty]) -> Out { u838(c11::functions::fun81::decode_output(d), t) }
fn k838(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun81::call(arg::<[Uint; 31]>(v, 0)); (i, u838(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u839(r: ethabi::Result<([String; 31], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e839(v: &[Val]) -> Vec<u8> { c11::functions::fun82::encode_input(arg::<[String; 31]>(v, 0), arg::<bool>(v, 1)) }
fn d839(d: &[u8], t: &[Ty]) -> Out { u839(c11::functions::fun82::decode_output(d), t) }
fn k839(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun82::call(arg::<[String; 31]>(v, 0), arg::<bool>(v, 1)); (i, u839(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u840(r: ethabi::Result<Vec<[Uint; 31]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e840(v: &[Val]) -> Vec<u8> { c11::functions::fun83::encode_input(arg::<[Vec<Hash>; 31]>(v, 0)) }
fn d840(d: &[u8], t: &[Ty]) -> Out { u840(c11::functions::fun83::decode_output(d), t) }
fn k840(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun83::call(arg::<[Vec<Hash>; 31]>(v, 0)); (i, u840(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u841(r: ethabi::Result<[[u8; 4]; 32]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e841(v: &[Val]) -> Vec<u8> { c11::functions::fun84::encode_input(arg::<[Uint; 32]>(v, 0)) }
fn d841(d: &[u8], t: &[Ty]) -> Out { u841(c11::functions::fun84::decode_output(d), t) }
fn k841(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun84::call(arg::<[Uint; 32]>(v, 0)); (i, u841(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u842(r: ethabi::Result<([String; 32], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e842(v: &[Val]) -> Vec<u8> { c11::functions::fun85::encode_input(arg::<[String; 32]>(v, 0), arg::<bool>(v, 1)) }
fn d842(d: &[u8], t: &[Ty]) -> Out { u842(c11::functions::fun85::decode_output(d), t) }
fn k842(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun85::call(arg::<[String; 32]>(v, 0), arg::<bool>(v, 1)); (i, u842(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u843(r: ethabi::Result<Vec<[Uint; 32]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e843(v: &[Val]) -> Vec<u8> { c11::functions::fun86::encode_input(arg::<[Vec<Hash>; 32]>(v, 0)) }
fn d843(d: &[u8], t: &[Ty]) -> Out { u843(c11::functions::fun86::decode_output(d), t) }
fn k843(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun86::call(arg::<[Vec<Hash>; 32]>(v, 0)); (i, u843(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u844(r: ethabi::Result<[[u8; 4]; 33]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e844(v: &[Val]) -> Vec<u8> { c11::functions::fun87::encode_input(arg::<[Uint; 33]>(v, 0)) }
fn d844(d: &[u8], t: &[Ty]) -> Out { u844(c11::functions::fun87::decode_output(d), t) }
fn k844(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun87::call(arg::<[Uint; 33]>(v, 0)); (i, u844(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u845(r: ethabi::Result<([String; 33], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e845(v: &[Val]) -> Vec<u8> { c11::functions::fun88::encode_input(arg::<[String; 33]>(v, 0), arg::<bool>(v, 1)) }
fn d845(d: &[u8], t: &[Ty]) -> Out { u845(c11::functions::fun88::decode_output(d), t) }
fn k845(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun88::call(arg::<[String; 33]>(v, 0), arg::<bool>(v, 1)); (i, u845(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u846(r: ethabi::Result<Vec<[Uint; 33]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e846(v: &[Val]) -> Vec<u8> { c11::functions::fun89::encode_input(arg::<[Vec<Hash>; 33]>(v, 0)) }
fn d846(d: &[u8], t: &[Ty]) -> Out { u846(c11::functions::fun89::decode_output(d), t) }
fn k846(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun89::call(arg::<[Vec<Hash>; 33]>(v, 0)); (i, u846(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u847(r: ethabi::Result<[[u8; 4]; 34]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e847(v: &[Val]) -> Vec<u8> { c11::functions::fun90::encode_input(arg::<[Uint; 34]>(v, 0)) }
fn d847(d: &[u8], t: &[Ty]) -> Out { u847(c11::functions::fun90::decode_output(d), t) }
fn k847(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun90::call(arg::<[Uint; 34]>(v, 0)); (i, u847(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u848(r: ethabi::Result<([String; 34], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e848(v: &[Val]) -> Vec<u8> { c11::functions::fun91::encode_input(arg::<[String; 34]>(v, 0), arg::<bool>(v, 1)) }
fn d848(d: &[u8], t: &[Ty]) -> Out { u848(c11::functions::fun91::decode_output(d), t) }
fn k848(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun91::call(arg::<[String; 34]>(v, 0), arg::<bool>(v, 1)); (i, u848(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u849(r: ethabi::Result<Vec<[Uint; 34]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e849(v: &[Val]) -> Vec<u8> { c11::functions::fun92::encode_input(arg::<[Vec<Hash>; 34]>(v, 0)) }
fn d849(d: &[u8], t: &[Ty]) -> Out { u849(c11::functions::fun92::decode_output(d), t) }
fn k849(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun92::call(arg::<[Vec<Hash>; 34]>(v, 0)); (i, u849(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u850(r: ethabi::Result<[[u8; 4]; 48]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e850(v: &[Val]) -> Vec<u8> { c11::functions::fun93::encode_input(arg::<[Uint; 48]>(v, 0)) }
fn d850(d: &[u8], t: &[Ty]) -> Out { u850(c11::functions::fun93::decode_output(d), t) }
fn k850(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun93::call(arg::<[Uint; 48]>(v, 0)); (i, u850(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u851(r: ethabi::Result<([String; 48], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e851(v: &[Val]) -> Vec<u8> { c11::functions::fun94::encode_input(arg::<[String; 48]>(v, 0), arg::<bool>(v, 1)) }
fn d851(d: &[u8], t: &[Ty]) -> Out { u851(c11::functions::fun94::decode_output(d), t) }
fn k851(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun94::call(arg::<[String; 48]>(v, 0), arg::<bool>(v, 1)); (i, u851(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u852(r: ethabi::Result<Vec<[Uint; 48]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e852(v: &[Val]) -> Vec<u8> { c11::functions::fun95::encode_input(arg::<[Vec<Hash>; 48]>(v, 0)) }
fn d852(d: &[u8], t: &[Ty]) -> Out { u852(c11::functions::fun95::decode_output(d), t) }
fn k852(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun95::call(arg::<[Vec<Hash>; 48]>(v, 0)); (i, u852(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u853(r: ethabi::Result<[[u8; 4]; 64]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e853(v: &[Val]) -> Vec<u8> { c11::functions::fun96::encode_input(arg::<[Uint; 64]>(v, 0)) }
fn d853(d: &[u8], t: &[Ty]) -> Out { u853(c11::functions::fun96::decode_output(d), t) }
fn k853(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun96::call(arg::<[Uint; 64]>(v, 0)); (i, u853(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u854(r: ethabi::Result<([String; 64], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e854(v: &[Val]) -> Vec<u8> { c11::functions::fun97::encode_input(arg::<[String; 64]>(v, 0), arg::<bool>(v, 1)) }
fn d854(d: &[u8], t: &[Ty]) -> Out { u854(c11::functions::fun97::decode_output(d), t) }
fn k854(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun97::call(arg::<[String; 64]>(v, 0), arg::<bool>(v, 1)); (i, u854(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u855(r: ethabi::Result<Vec<[Uint; 64]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e855(v: &[Val]) -> Vec<u8> { c11::functions::fun98::encode_input(arg::<[Vec<Hash>; 64]>(v, 0)) }
fn d855(d: &[u8], t: &[Ty]) -> Out { u855(c11::functions::fun98::decode_output(d), t) }
fn k855(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun98::call(arg::<[Vec<Hash>; 64]>(v, 0)); (i, u855(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u856(r: ethabi::Result<[[u8; 4]; 65]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e856(v: &[Val]) -> Vec<u8> { c11::functions::fun99::encode_input(arg::<[Uint; 65]>(v, 0)) }
fn d856(d: &[u8], t: &[Ty]) -> Out { u856(c11::functions::fun99::decode_output(d), t) }
fn k856(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun99::call(arg::<[Uint; 65]>(v, 0)); (i, u856(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u857(r: ethabi::Result<([String; 65], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e857(v: &[Val]) -> Vec<u8> { c11::functions::fun100::encode_input(arg::<[String; 65]>(v, 0), arg::<bool>(v, 1)) }
fn d857(d: &[u8], t: &[Ty]) -> Out { u857(c11::functions::fun100::decode_output(d), t) }
fn k857(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun100::call(arg::<[String; 65]>(v, 0), arg::<bool>(v, 1)); (i, u857(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u858(r: ethabi::Result<Vec<[Uint; 65]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e858(v: &[Val]) -> Vec<u8> { c11::functions::fun101::encode_input(arg::<[Vec<Hash>; 65]>(v, 0)) }
fn d858(d: &[u8], t: &[Ty]) -> Out { u858(c11::functions::fun101::decode_output(d), t) }
fn k858(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun101::call(arg::<[Vec<Hash>; 65]>(v, 0)); (i, u858(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u859(r: ethabi::Result<[[u8; 4]; 100]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e859(v: &[Val]) -> Vec<u8> { c11::functions::fun102::encode_input(arg::<[Uint; 100]>(v, 0)) }
fn d859(d: &[u8], t: &[Ty]) -> Out { u859(c11::functions::fun102::decode_output(d), t) }
fn k859(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun102::call(arg::<[Uint; 100]>(v, 0)); (i, u859(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u860(r: ethabi::Result<([String; 100], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e860(v: &[Val]) -> Vec<u8> { c11::functions::fun103::encode_input(arg::<[String; 100]>(v, 0), arg::<bool>(v, 1)) }
fn d860(d: &[u8], t: &[Ty]) -> Out { u860(c11::functions::fun103::decode_output(d), t) }
fn k860(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun103::call(arg::<[String; 100]>(v, 0), arg::<bool>(v, 1)); (i, u860(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u861(r: ethabi::Result<Vec<[Uint; 100]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e861(v: &[Val]) -> Vec<u8> { c11::functions::fun104::encode_input(arg::<[Vec<Hash>; 100]>(v, 0)) }
fn d861(d: &[u8], t: &[Ty]) -> Out { u861(c11::functions::fun104::decode_output(d), t) }
fn k861(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c11::functions::fun104::call(arg::<[Vec<Hash>; 100]>(v, 0)); (i, u861(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u862(r: ethabi::Result<(Vec<Vec<Vec<Address>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e862(v: &[Val]) -> Vec<u8> { c12::functions::fun0::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Address>>>>(v, 1)) }
fn d862(d: &[u8], t: &[Ty]) -> Out { u862(c12::functions::fun0::decode_output(d), t) }
fn k862(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun0::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Address>>>>(v, 1)); (i, u862(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u863(r: ethabi::Result<([Vec<Vec<Address>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e863(v: &[Val]) -> Vec<u8> { c12::functions::fun1::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Address>>; 2]>(v, 1)) }
fn d863(d: &[u8], t: &[Ty]) -> Out { u863(c12::functions::fun1::decode_output(d), t) }
fn k863(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun1::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Address>>; 2]>(v, 1)); (i, u863(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u864(r: ethabi::Result<(Vec<[Vec<Address>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e864(v: &[Val]) -> Vec<u8> { c12::functions::fun2::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Address>; 2]>>(v, 1)) }
fn d864(d: &[u8], t: &[Ty]) -> Out { u864(c12::functions::fun2::decode_output(d), t) }
fn k864(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun2::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Address>; 2]>>(v, 1)); (i, u864(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u865(r: ethabi::Result<([[Vec<Address>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e865(v: &[Val]) -> Vec<u8> { c12::functions::fun3::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Address>; 2]; 2]>(v, 1)) }
fn d865(d: &[u8], t: &[Ty]) -> Out { u865(c12::functions::fun3::decode_output(d), t) }
fn k865(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun3::call(arg::<bool>(v, 0), arg::<[[Vec<Address>; 2]; 2]>(v, 1)); (i, u865(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u866(r: ethabi::Result<(Vec<Vec<[Address; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e866(v: &[Val]) -> Vec<u8> { c12::functions::fun4::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Address; 2]>>>(v, 1)) }
fn d866(d: &[u8], t: &[Ty]) -> Out { u866(c12::functions::fun4::decode_output(d), t) }
fn k866(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun4::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Address; 2]>>>(v, 1)); (i, u866(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u867(r: ethabi::Result<([Vec<[Address; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e867(v: &[Val]) -> Vec<u8> { c12::functions::fun5::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Address; 2]>; 2]>(v, 1)) }
fn d867(d: &[u8], t: &[Ty]) -> Out { u867(c12::functions::fun5::decode_output(d), t) }
fn k867(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun5::call(arg::<bool>(v, 0), arg::<[Vec<[Address; 2]>; 2]>(v, 1)); (i, u867(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u868(r: ethabi::Result<(Vec<[[Address; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e868(v: &[Val]) -> Vec<u8> { c12::functions::fun6::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Address; 2]; 2]>>(v, 1)) }
fn d868(d: &[u8], t: &[Ty]) -> Out { u868(c12::functions::fun6::decode_output(d), t) }
fn k868(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun6::call(arg::<bool>(v, 0), arg::<Vec<[[Address; 2]; 2]>>(v, 1)); (i, u868(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u869(r: ethabi::Result<([[[Address; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e869(v: &[Val]) -> Vec<u8> { c12::functions::fun7::encode_input(arg::<bool>(v, 0), arg::<[[[Address; 2]; 2]; 2]>(v, 1)) }
fn d869(d: &[u8], t: &[Ty]) -> Out { u869(c12::functions::fun7::decode_output(d), t) }
fn k869(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun7::call(arg::<bool>(v, 0), arg::<[[[Address; 2]; 2]; 2]>(v, 1)); (i, u869(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u870(r: ethabi::Result<(Vec<Vec<Vec<Vec<u8>>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e870(v: &[Val]) -> Vec<u8> { c12::functions::fun8::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Vec<u8>>>>>(v, 1)) }
fn d870(d: &[u8], t: &[Ty]) -> Out { u870(c12::functions::fun8::decode_output(d), t) }
fn k870(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun8::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Vec<u8>>>>>(v, 1)); (i, u870(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u871(r: ethabi::Result<([Vec<Vec<Vec<u8>>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e871(v: &[Val]) -> Vec<u8> { c12::functions::fun9::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Vec<u8>>>; 2]>(v, 1)) }
fn d871(d: &[u8], t: &[Ty]) -> Out { u871(c12::functions::fun9::decode_output(d), t) }
fn k871(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun9::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Vec<u8>>>; 2]>(v, 1)); (i, u871(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u872(r: ethabi::Result<(Vec<[Vec<Vec<u8>>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e872(v: &[Val]) -> Vec<u8> { c12::functions::fun10::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Vec<u8>>; 2]>>(v, 1)) }
fn d872(d: &[u8], t: &[Ty]) -> Out { u872(c12::functions::fun10::decode_output(d), t) }
fn k872(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun10::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Vec<u8>>; 2]>>(v, 1)); (i, u872(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u873(r: ethabi::Result<([[Vec<Vec<u8>>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e873(v: &[Val]) -> Vec<u8> { c12::functions::fun11::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Vec<u8>>; 2]; 2]>(v, 1)) }
fn d873(d: &[u8], t: &[Ty]) -> Out { u873(c12::functions::fun11::decode_output(d), t) }
fn k873(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun11::call(arg::<bool>(v, 0), arg::<[[Vec<Vec<u8>>; 2]; 2]>(v, 1)); (i, u873(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u874(r: ethabi::Result<(Vec<Vec<[Vec<u8>; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e874(v: &[Val]) -> Vec<u8> { c12::functions::fun12::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Vec<u8>; 2]>>>(v, 1)) }
fn d874(d: &[u8], t: &[Ty]) -> Out { u874(c12::functions::fun12::decode_output(d), t) }
fn k874(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun12::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Vec<u8>; 2]>>>(v, 1)); (i, u874(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u875(r: ethabi::Result<([Vec<[Vec<u8>; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e875(v: &[Val]) -> Vec<u8> { c12::functions::fun13::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Vec<u8>; 2]>; 2]>(v, 1)) }
fn d875(d: &[u8], t: &[Ty]) -> Out { u875(c12::functions::fun13::decode_output(d), t) }
fn k875(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun13::call(arg::<bool>(v, 0), arg::<[Vec<[Vec<u8>; 2]>; 2]>(v, 1)); (i, u875(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u876(r: ethabi::Result<(Vec<[[Vec<u8>; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e876(v: &[Val]) -> Vec<u8> { c12::functions::fun14::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Vec<u8>; 2]; 2]>>(v, 1)) }
fn d876(d: &[u8], t: &[Ty]) -> Out { u876(c12::functions::fun14::decode_output(d), t) }
fn k876(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun14::call(arg::<bool>(v, 0), arg::<Vec<[[Vec<u8>; 2]; 2]>>(v, 1)); (i, u876(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u877(r: ethabi::Result<([[[Vec<u8>; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e877(v: &[Val]) -> Vec<u8> { c12::functions::fun15::encode_input(arg::<bool>(v, 0), arg::<[[[Vec<u8>; 2]; 2]; 2]>(v, 1)) }
fn d877(d: &[u8], t: &[Ty]) -> Out { u877(c12::functions::fun15::decode_output(d), t) }
fn k877(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun15::call(arg::<bool>(v, 0), arg::<[[[Vec<u8>; 2]; 2]; 2]>(v, 1)); (i, u877(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u878(r: ethabi::Result<(Vec<Vec<Vec<Hash>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e878(v: &[Val]) -> Vec<u8> { c12::functions::fun16::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Hash>>>>(v, 1)) }
fn d878(d: &[u8], t: &[Ty]) -> Out { u878(c12::functions::fun16::decode_output(d), t) }
fn k878(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun16::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Hash>>>>(v, 1)); (i, u878(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u879(r: ethabi::Result<([Vec<Vec<Hash>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e879(v: &[Val]) -> Vec<u8> { c12::functions::fun17::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Hash>>; 2]>(v, 1)) }
fn d879(d: &[u8], t: &[Ty]) -> Out { u879(c12::functions::fun17::decode_output(d), t) }
fn k879(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun17::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Hash>>; 2]>(v, 1)); (i, u879(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u880(r: ethabi::Result<(Vec<[Vec<Hash>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e880(v: &[Val]) -> Vec<u8> { c12::functions::fun18::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Hash>; 2]>>(v, 1)) }
fn d880(d: &[u8], t: &[Ty]) -> Out { u880(c12::functions::fun18::decode_output(d), t) }
fn k880(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun18::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Hash>; 2]>>(v, 1)); (i, u880(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u881(r: ethabi::Result<([[Vec<Hash>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e881(v: &[Val]) -> Vec<u8> { c12::functions::fun19::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Hash>; 2]; 2]>(v, 1)) }
fn d881(d: &[u8], t: &[Ty]) -> Out { u881(c12::functions::fun19::decode_output(d), t) }
fn k881(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun19::call(arg::<bool>(v, 0), arg::<[[Vec<Hash>; 2]; 2]>(v, 1)); (i, u881(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u882(r: ethabi::Result<(Vec<Vec<[Hash; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e882(v: &[Val]) -> Vec<u8> { c12::functions::fun20::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Hash; 2]>>>(v, 1)) }
fn d882(d: &[u8], t: &[Ty]) -> Out { u882(c12::functions::fun20::decode_output(d), t) }
fn k882(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun20::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Hash; 2]>>>(v, 1)); (i, u882(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u883(r: ethabi::Result<([Vec<[Hash; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e883(v: &[Val]) -> Vec<u8> { c12::functions::fun21::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Hash; 2]>; 2]>(v, 1)) }
fn d883(d: &[u8], t: &[Ty]) -> Out { u883(c12::functions::fun21::decode_output(d), t) }
fn k883(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun21::call(arg::<bool>(v, 0), arg::<[Vec<[Hash; 2]>; 2]>(v, 1)); (i, u883(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u884(r: ethabi::Result<(Vec<[[Hash; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e884(v: &[Val]) -> Vec<u8> { c12::functions::fun22::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Hash; 2]; 2]>>(v, 1)) }
fn d884(d: &[u8], t: &[Ty]) -> Out { u884(c12::functions::fun22::decode_output(d), t) }
fn k884(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun22::call(arg::<bool>(v, 0), arg::<Vec<[[Hash; 2]; 2]>>(v, 1)); (i, u884(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u885(r: ethabi::Result<([[[Hash; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e885(v: &[Val]) -> Vec<u8> { c12::functions::fun23::encode_input(arg::<bool>(v, 0), arg::<[[[Hash; 2]; 2]; 2]>(v, 1)) }
fn d885(d: &[u8], t: &[Ty]) -> Out { u885(c12::functions::fun23::decode_output(d), t) }
fn k885(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun23::call(arg::<bool>(v, 0), arg::<[[[Hash; 2]; 2]; 2]>(v, 1)); (i, u885(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u886(r: ethabi::Result<(Vec<Vec<Vec<[u8; 4]>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e886(v: &[Val]) -> Vec<u8> { c12::functions::fun24::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<[u8; 4]>>>>(v, 1)) }
fn d886(d: &[u8], t: &[Ty]) -> Out { u886(c12::functions::fun24::decode_output(d), t) }
fn k886(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun24::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<[u8; 4]>>>>(v, 1)); (i, u886(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u887(r: ethabi::Result<([Vec<Vec<[u8; 4]>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e887(v: &[Val]) -> Vec<u8> { c12::functions::fun25::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<[u8; 4]>>; 2]>(v, 1)) }
fn d887(d: &[u8], t: &[Ty]) -> Out { u887(c12::functions::fun25::decode_output(d), t) }
fn k887(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun25::call(arg::<bool>(v, 0), arg::<[Vec<Vec<[u8; 4]>>; 2]>(v, 1)); (i, u887(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u888(r: ethabi::Result<(Vec<[Vec<[u8; 4]>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e888(v: &[Val]) -> Vec<u8> { c12::functions::fun26::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<[u8; 4]>; 2]>>(v, 1)) }
fn d888(d: &[u8], t: &[Ty]) -> Out { u888(c12::functions::fun26::decode_output(d), t) }
fn k888(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun26::call(arg::<bool>(v, 0), arg::<Vec<[Vec<[u8; 4]>; 2]>>(v, 1)); (i, u888(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u889(r: ethabi::Result<([[Vec<[u8; 4]>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e889(v: &[Val]) -> Vec<u8> { c12::functions::fun27::encode_input(arg::<bool>(v, 0), arg::<[[Vec<[u8; 4]>; 2]; 2]>(v, 1)) }
fn d889(d: &[u8], t: &[Ty]) -> Out { u889(c12::functions::fun27::decode_output(d), t) }
fn k889(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun27::call(arg::<bool>(v, 0), arg::<[[Vec<[u8; 4]>; 2]; 2]>(v, 1)); (i, u889(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u890(r: ethabi::Result<(Vec<Vec<[[u8; 4]; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e890(v: &[Val]) -> Vec<u8> { c12::functions::fun28::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[[u8; 4]; 2]>>>(v, 1)) }
fn d890(d: &[u8], t: &[Ty]) -> Out { u890(c12::functions::fun28::decode_output(d), t) }
fn k890(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun28::call(arg::<bool>(v, 0), arg::<Vec<Vec<[[u8; 4]; 2]>>>(v, 1)); (i, u890(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u891(r: ethabi::Result<([Vec<[[u8; 4]; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e891(v: &[Val]) -> Vec<u8> { c12::functions::fun29::encode_input(arg::<bool>(v, 0), arg::<[Vec<[[u8; 4]; 2]>; 2]>(v, 1)) }
fn d891(d: &[u8], t: &[Ty]) -> Out { u891(c12::functions::fun29::decode_output(d), t) }
fn k891(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun29::call(arg::<bool>(v, 0), arg::<[Vec<[[u8; 4]; 2]>; 2]>(v, 1)); (i, u891(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u892(r: ethabi::Result<(Vec<[[[u8; 4]; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e892(v: &[Val]) -> Vec<u8> { c12::functions::fun30::encode_input(arg::<bool>(v, 0), arg::<Vec<[[[u8; 4]; 2]; 2]>>(v, 1)) }
fn d892(d: &[u8], t: &[Ty]) -> Out { u892(c12::functions::fun30::decode_output(d), t) }
fn k892(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun30::call(arg::<bool>(v, 0), arg::<Vec<[[[u8; 4]; 2]; 2]>>(v, 1)); (i, u892(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u893(r: ethabi::Result<([[[[u8; 4]; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e893(v: &[Val]) -> Vec<u8> { c12::functions::fun31::encode_input(arg::<bool>(v, 0), arg::<[[[[u8; 4]; 2]; 2]; 2]>(v, 1)) }
fn d893(d: &[u8], t: &[Ty]) -> Out { u893(c12::functions::fun31::decode_output(d), t) }
fn k893(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun31::call(arg::<bool>(v, 0), arg::<[[[[u8; 4]; 2]; 2]; 2]>(v, 1)); (i, u893(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u894(r: ethabi::Result<(Vec<Vec<Vec<Uint>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e894(v: &[Val]) -> Vec<u8> { c12::functions::fun32::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)) }
fn d894(d: &[u8], t: &[Ty]) -> Out { u894(c12::functions::fun32::decode_output(d), t) }
fn k894(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun32::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)); (i, u894(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u895(r: ethabi::Result<([Vec<Vec<Uint>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e895(v: &[Val]) -> Vec<u8> { c12::functions::fun33::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)) }
fn d895(d: &[u8], t: &[Ty]) -> Out { u895(c12::functions::fun33::decode_output(d), t) }
fn k895(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun33::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)); (i, u895(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u896(r: ethabi::Result<(Vec<[Vec<Uint>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e896(v: &[Val]) -> Vec<u8> { c12::functions::fun34::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)) }
fn d896(d: &[u8], t: &[Ty]) -> Out { u896(c12::functions::fun34::decode_output(d), t) }
fn k896(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun34::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)); (i, u896(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u897(r: ethabi::Result<([[Vec<Uint>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e897(v: &[Val]) -> Vec<u8> { c12::functions::fun35::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)) }
fn d897(d: &[u8], t: &[Ty]) -> Out { u897(c12::functions::fun35::decode_output(d), t) }
fn k897(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun35::call(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)); (i, u897(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u898(r: ethabi::Result<(Vec<Vec<[Uint; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e898(v: &[Val]) -> Vec<u8> { c12::functions::fun36::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)) }
fn d898(d: &[u8], t: &[Ty]) -> Out { u898(c12::functions::fun36::decode_output(d), t) }
fn k898(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun36::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)); (i, u898(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u899(r: ethabi::Result<([Vec<[Uint; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e899(v: &[Val]) -> Vec<u8> { c12::functions::fun37::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)) }
fn d899(d: &[u8], t: &[Ty]) -> Out { u899(c12::functions::fun37::decode_output(d), t) }
fn k899(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun37::call(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)); (i, u899(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u900(r: ethabi::Result<(Vec<[[Uint; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e900(v: &[Val]) -> Vec<u8> { c12::functions::fun38::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)) }
fn d900(d: &[u8], t: &[Ty]) -> Out { u900(c12::functions::fun38::decode_output(d), t) }
fn k900(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun38::call(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)); (i, u900(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u901(r: ethabi::Result<([[[Uint; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e901(v: &[Val]) -> Vec<u8> { c12::functions::fun39::encode_input(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)) }
fn d901(d: &[u8], t: &[Ty]) -> Out { u901(c12::functions::fun39::decode_output(d), t) }
fn k901(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun39::call(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)); (i, u901(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u902(r: ethabi::Result<(Vec<Vec<Vec<Uint>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e902(v: &[Val]) -> Vec<u8> { c12::functions::fun40::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)) }
fn d902(d: &[u8], t: &[Ty]) -> Out { u902(c12::functions::fun40::decode_output(d), t) }
fn k902(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun40::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)); (i, u902(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u903(r: ethabi::Result<([Vec<Vec<Uint>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e903(v: &[Val]) -> Vec<u8> { c12::functions::fun41::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)) }
fn d903(d: &[u8], t: &[Ty]) -> Out { u903(c12::functions::fun41::decode_output(d), t) }
fn k903(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun41::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)); (i, u903(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u904(r: ethabi::Result<(Vec<[Vec<Uint>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e904(v: &[Val]) -> Vec<u8> { c12::functions::fun42::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)) }
fn d904(d: &[u8], t: &[Ty]) -> Out { u904(c12::functions::fun42::decode_output(d), t) }
fn k904(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun42::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)); (i, u904(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u905(r: ethabi::Result<([[Vec<Uint>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e905(v: &[Val]) -> Vec<u8> { c12::functions::fun43::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)) }
fn d905(d: &[u8], t: &[Ty]) -> Out { u905(c12::functions::fun43::decode_output(d), t) }
fn k905(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun43::call(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)); (i, u905(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u906(r: ethabi::Result<(Vec<Vec<[Uint; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e906(v: &[Val]) -> Vec<u8> { c12::functions::fun44::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)) }
fn d906(d: &[u8], t: &[Ty]) -> Out { u906(c12::functions::fun44::decode_output(d), t) }
fn k906(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun44::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)); (i, u906(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u907(r: ethabi::Result<([Vec<[Uint; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e907(v: &[Val]) -> Vec<u8> { c12::functions::fun45::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)) }
fn d907(d: &[u8], t: &[Ty]) -> Out { u907(c12::functions::fun45::decode_output(d), t) }
fn k907(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun45::call(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)); (i, u907(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u908(r: ethabi::Result<(Vec<[[Uint; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e908(v: &[Val]) -> Vec<u8> { c12::functions::fun46::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)) }
fn d908(d: &[u8], t: &[Ty]) -> Out { u908(c12::functions::fun46::decode_output(d), t) }
fn k908(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun46::call(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)); (i, u908(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u909(r: ethabi::Result<([[[Uint; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e909(v: &[Val]) -> Vec<u8> { c12::functions::fun47::encode_input(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)) }
fn d909(d: &[u8], t: &[Ty]) -> Out { u909(c12::functions::fun47::decode_output(d), t) }
fn k909(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun47::call(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)); (i, u909(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u910(r: ethabi::Result<(Vec<Vec<Vec<Uint>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e910(v: &[Val]) -> Vec<u8> { c12::functions::fun48::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)) }
fn d910(d: &[u8], t: &[Ty]) -> Out { u910(c12::functions::fun48::decode_output(d), t) }
fn k910(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun48::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<Uint>>>>(v, 1)); (i, u910(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u911(r: ethabi::Result<([Vec<Vec<Uint>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e911(v: &[Val]) -> Vec<u8> { c12::functions::fun49::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)) }
fn d911(d: &[u8], t: &[Ty]) -> Out { u911(c12::functions::fun49::decode_output(d), t) }
fn k911(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun49::call(arg::<bool>(v, 0), arg::<[Vec<Vec<Uint>>; 2]>(v, 1)); (i, u911(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u912(r: ethabi::Result<(Vec<[Vec<Uint>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e912(v: &[Val]) -> Vec<u8> { c12::functions::fun50::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)) }
fn d912(d: &[u8], t: &[Ty]) -> Out { u912(c12::functions::fun50::decode_output(d), t) }
fn k912(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun50::call(arg::<bool>(v, 0), arg::<Vec<[Vec<Uint>; 2]>>(v, 1)); (i, u912(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u913(r: ethabi::Result<([[Vec<Uint>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e913(v: &[Val]) -> Vec<u8> { c12::functions::fun51::encode_input(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)) }
fn d913(d: &[u8], t: &[Ty]) -> Out { u913(c12::functions::fun51::decode_output(d), t) }
fn k913(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun51::call(arg::<bool>(v, 0), arg::<[[Vec<Uint>; 2]; 2]>(v, 1)); (i, u913(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u914(r: ethabi::Result<(Vec<Vec<[Uint; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e914(v: &[Val]) -> Vec<u8> { c12::functions::fun52::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)) }
fn d914(d: &[u8], t: &[Ty]) -> Out { u914(c12::functions::fun52::decode_output(d), t) }
fn k914(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun52::call(arg::<bool>(v, 0), arg::<Vec<Vec<[Uint; 2]>>>(v, 1)); (i, u914(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u915(r: ethabi::Result<([Vec<[Uint; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e915(v: &[Val]) -> Vec<u8> { c12::functions::fun53::encode_input(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)) }
fn d915(d: &[u8], t: &[Ty]) -> Out { u915(c12::functions::fun53::decode_output(d), t) }
fn k915(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun53::call(arg::<bool>(v, 0), arg::<[Vec<[Uint; 2]>; 2]>(v, 1)); (i, u915(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u916(r: ethabi::Result<(Vec<[[Uint; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e916(v: &[Val]) -> Vec<u8> { c12::functions::fun54::encode_input(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)) }
fn d916(d: &[u8], t: &[Ty]) -> Out { u916(c12::functions::fun54::decode_output(d), t) }
fn k916(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun54::call(arg::<bool>(v, 0), arg::<Vec<[[Uint; 2]; 2]>>(v, 1)); (i, u916(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u917(r: ethabi::Result<([[[Uint; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e917(v: &[Val]) -> Vec<u8> { c12::functions::fun55::encode_input(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)) }
fn d917(d: &[u8], t: &[Ty]) -> Out { u917(c12::functions::fun55::decode_output(d), t) }
fn k917(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun55::call(arg::<bool>(v, 0), arg::<[[[Uint; 2]; 2]; 2]>(v, 1)); (i, u917(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u918(r: ethabi::Result<(Vec<Vec<Vec<bool>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e918(v: &[Val]) -> Vec<u8> { c12::functions::fun56::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<bool>>>>(v, 1)) }
fn d918(d: &[u8], t: &[Ty]) -> Out { u918(c12::functions::fun56::decode_output(d), t) }
fn k918(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun56::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<bool>>>>(v, 1)); (i, u918(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u919(r: ethabi::Result<([Vec<Vec<bool>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e919(v: &[Val]) -> Vec<u8> { c12::functions::fun57::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<bool>>; 2]>(v, 1)) }
fn d919(d: &[u8], t: &[Ty]) -> Out { u919(c12::functions::fun57::decode_output(d), t) }
fn k919(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun57::call(arg::<bool>(v, 0), arg::<[Vec<Vec<bool>>; 2]>(v, 1)); (i, u919(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u920(r: ethabi::Result<(Vec<[Vec<bool>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e920(v: &[Val]) -> Vec<u8> { c12::functions::fun58::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<bool>; 2]>>(v, 1)) }
fn d920(d: &[u8], t: &[Ty]) -> Out { u920(c12::functions::fun58::decode_output(d), t) }
fn k920(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun58::call(arg::<bool>(v, 0), arg::<Vec<[Vec<bool>; 2]>>(v, 1)); (i, u920(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u921(r: ethabi::Result<([[Vec<bool>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e921(v: &[Val]) -> Vec<u8> { c12::functions::fun59::encode_input(arg::<bool>(v, 0), arg::<[[Vec<bool>; 2]; 2]>(v, 1)) }
fn d921(d: &[u8], t: &[Ty]) -> Out { u921(c12::functions::fun59::decode_output(d), t) }
fn k921(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun59::call(arg::<bool>(v, 0), arg::<[[Vec<bool>; 2]; 2]>(v, 1)); (i, u921(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u922(r: ethabi::Result<(Vec<Vec<[bool; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e922(v: &[Val]) -> Vec<u8> { c12::functions::fun60::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[bool; 2]>>>(v, 1)) }
fn d922(d: &[u8], t: &[Ty]) -> Out { u922(c12::functions::fun60::decode_output(d), t) }
fn k922(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun60::call(arg::<bool>(v, 0), arg::<Vec<Vec<[bool; 2]>>>(v, 1)); (i, u922(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u923(r: ethabi::Result<([Vec<[bool; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e923(v: &[Val]) -> Vec<u8> { c12::functions::fun61::encode_input(arg::<bool>(v, 0), arg::<[Vec<[bool; 2]>; 2]>(v, 1)) }
fn d923(d: &[u8], t: &[Ty]) -> Out { u923(c12::functions::fun61::decode_output(d), t) }
fn k923(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun61::call(arg::<bool>(v, 0), arg::<[Vec<[bool; 2]>; 2]>(v, 1)); (i, u923(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u924(r: ethabi::Result<(Vec<[[bool; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e924(v: &[Val]) -> Vec<u8> { c12::functions::fun62::encode_input(arg::<bool>(v, 0), arg::<Vec<[[bool; 2]; 2]>>(v, 1)) }
fn d924(d: &[u8], t: &[Ty]) -> Out { u924(c12::functions::fun62::decode_output(d), t) }
fn k924(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun62::call(arg::<bool>(v, 0), arg::<Vec<[[bool; 2]; 2]>>(v, 1)); (i, u924(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u925(r: ethabi::Result<([[[bool; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e925(v: &[Val]) -> Vec<u8> { c12::functions::fun63::encode_input(arg::<bool>(v, 0), arg::<[[[bool; 2]; 2]; 2]>(v, 1)) }
fn d925(d: &[u8], t: &[Ty]) -> Out { u925(c12::functions::fun63::decode_output(d), t) }
fn k925(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun63::call(arg::<bool>(v, 0), arg::<[[[bool; 2]; 2]; 2]>(v, 1)); (i, u925(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u926(r: ethabi::Result<(Vec<Vec<Vec<String>>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e926(v: &[Val]) -> Vec<u8> { c12::functions::fun64::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<String>>>>(v, 1)) }
fn d926(d: &[u8], t: &[Ty]) -> Out { u926(c12::functions::fun64::decode_output(d), t) }
fn k926(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun64::call(arg::<bool>(v, 0), arg::<Vec<Vec<Vec<String>>>>(v, 1)); (i, u926(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u927(r: ethabi::Result<([Vec<Vec<String>>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e927(v: &[Val]) -> Vec<u8> { c12::functions::fun65::encode_input(arg::<bool>(v, 0), arg::<[Vec<Vec<String>>; 2]>(v, 1)) }
fn d927(d: &[u8], t: &[Ty]) -> Out { u927(c12::functions::fun65::decode_output(d), t) }
fn k927(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun65::call(arg::<bool>(v, 0), arg::<[Vec<Vec<String>>; 2]>(v, 1)); (i, u927(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u928(r: ethabi::Result<(Vec<[Vec<String>; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e928(v: &[Val]) -> Vec<u8> { c12::functions::fun66::encode_input(arg::<bool>(v, 0), arg::<Vec<[Vec<String>; 2]>>(v, 1)) }
fn d928(d: &[u8], t: &[Ty]) -> Out { u928(c12::functions::fun66::decode_output(d), t) }
fn k928(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun66::call(arg::<bool>(v, 0), arg::<Vec<[Vec<String>; 2]>>(v, 1)); (i, u928(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u929(r: ethabi::Result<([[Vec<String>; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e929(v: &[Val]) -> Vec<u8> { c12::functions::fun67::encode_input(arg::<bool>(v, 0), arg::<[[Vec<String>; 2]; 2]>(v, 1)) }
fn d929(d: &[u8], t: &[Ty]) -> Out { u929(c12::functions::fun67::decode_output(d), t) }
fn k929(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun67::call(arg::<bool>(v, 0), arg::<[[Vec<String>; 2]; 2]>(v, 1)); (i, u929(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u930(r: ethabi::Result<(Vec<Vec<[String; 2]>>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e930(v: &[Val]) -> Vec<u8> { c12::functions::fun68::encode_input(arg::<bool>(v, 0), arg::<Vec<Vec<[String; 2]>>>(v, 1)) }
fn d930(d: &[u8], t: &[Ty]) -> Out { u930(c12::functions::fun68::decode_output(d), t) }
fn k930(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun68::call(arg::<bool>(v, 0), arg::<Vec<Vec<[String; 2]>>>(v, 1)); (i, u930(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u931(r: ethabi::Result<([Vec<[String; 2]>; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e931(v: &[Val]) -> Vec<u8> { c12::functions::fun69::encode_input(arg::<bool>(v, 0), arg::<[Vec<[String; 2]>; 2]>(v, 1)) }
fn d931(d: &[u8], t: &[Ty]) -> Out { u931(c12::functions::fun69::decode_output(d), t) }
fn k931(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun69::call(arg::<bool>(v, 0), arg::<[Vec<[String; 2]>; 2]>(v, 1)); (i, u931(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u932(r: ethabi::Result<(Vec<[[String; 2]; 2]>, bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e932(v: &[Val]) -> Vec<u8> { c12::functions::fun70::encode_input(arg::<bool>(v, 0), arg::<Vec<[[String; 2]; 2]>>(v, 1)) }
fn d932(d: &[u8], t: &[Ty]) -> Out { u932(c12::functions::fun70::decode_output(d), t) }
fn k932(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun70::call(arg::<bool>(v, 0), arg::<Vec<[[String; 2]; 2]>>(v, 1)); (i, u932(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u933(r: ethabi::Result<([[[String; 2]; 2]; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e933(v: &[Val]) -> Vec<u8> { c12::functions::fun71::encode_input(arg::<bool>(v, 0), arg::<[[[String; 2]; 2]; 2]>(v, 1)) }
fn d933(d: &[u8], t: &[Ty]) -> Out { u933(c12::functions::fun71::decode_output(d), t) }
fn k933(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun71::call(arg::<bool>(v, 0), arg::<[[[String; 2]; 2]; 2]>(v, 1)); (i, u933(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u934(r: ethabi::Result<Vec<Vec<Vec<Vec<Uint>>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e934(v: &[Val]) -> Vec<u8> { c12::functions::fun72::encode_input(arg::<Vec<Vec<Vec<Vec<Uint>>>>>(v, 0)) }
fn d934(d: &[u8], t: &[Ty]) -> Out { u934(c12::functions::fun72::decode_output(d), t) }
fn k934(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun72::call(arg::<Vec<Vec<Vec<Vec<Uint>>>>>(v, 0)); (i, u934(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u935(r: ethabi::Result<[Vec<Vec<Vec<Uint>>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e935(v: &[Val]) -> Vec<u8> { c12::functions::fun73::encode_input(arg::<[Vec<Vec<Vec<Uint>>>; 2]>(v, 0)) }
fn d935(d: &[u8], t: &[Ty]) -> Out { u935(c12::functions::fun73::decode_output(d), t) }
fn k935(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun73::call(arg::<[Vec<Vec<Vec<Uint>>>; 2]>(v, 0)); (i, u935(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u936(r: ethabi::Result<Vec<[Vec<Vec<Uint>>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e936(v: &[Val]) -> Vec<u8> { c12::functions::fun74::encode_input(arg::<Vec<[Vec<Vec<Uint>>; 2]>>(v, 0)) }
fn d936(d: &[u8], t: &[Ty]) -> Out { u936(c12::functions::fun74::decode_output(d), t) }
fn k936(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun74::call(arg::<Vec<[Vec<Vec<Uint>>; 2]>>(v, 0)); (i, u936(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u937(r: ethabi::Result<[[Vec<Vec<Uint>>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e937(v: &[Val]) -> Vec<u8> { c12::functions::fun75::encode_input(arg::<[[Vec<Vec<Uint>>; 2]; 2]>(v, 0)) }
fn d937(d: &[u8], t: &[Ty]) -> Out { u937(c12::functions::fun75::decode_output(d), t) }
fn k937(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun75::call(arg::<[[Vec<Vec<Uint>>; 2]; 2]>(v, 0)); (i, u937(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u938(r: ethabi::Result<Vec<Vec<[Vec<Uint>; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e938(v: &[Val]) -> Vec<u8> { c12::functions::fun76::encode_input(arg::<Vec<Vec<[Vec<Uint>; 2]>>>(v, 0)) }
fn d938(d: &[u8], t: &[Ty]) -> Out { u938(c12::functions::fun76::decode_output(d), t) }
fn k938(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun76::call(arg::<Vec<Vec<[Vec<Uint>; 2]>>>(v, 0)); (i, u938(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u939(r: ethabi::Result<[Vec<[Vec<Uint>; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e939(v: &[Val]) -> Vec<u8> { c12::functions::fun77::encode_input(arg::<[Vec<[Vec<Uint>; 2]>; 2]>(v, 0)) }
fn d939(d: &[u8], t: &[Ty]) -> Out { u939(c12::functions::fun77::decode_output(d), t) }
fn k939(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun77::call(arg::<[Vec<[Vec<Uint>; 2]>; 2]>(v, 0)); (i, u939(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u940(r: ethabi::Result<Vec<[[Vec<Uint>; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e940(v: &[Val]) -> Vec<u8> { c12::functions::fun78::encode_input(arg::<Vec<[[Vec<Uint>; 2]; 2]>>(v, 0)) }
fn d940(d: &[u8], t: &[Ty]) -> Out { u940(c12::functions::fun78::decode_output(d), t) }
fn k940(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun78::call(arg::<Vec<[[Vec<Uint>; 2]; 2]>>(v, 0)); (i, u940(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u941(r: ethabi::Result<[[[Vec<Uint>; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e941(v: &[Val]) -> Vec<u8> { c12::functions::fun79::encode_input(arg::<[[[Vec<Uint>; 2]; 2]; 2]>(v, 0)) }
fn d941(d: &[u8], t: &[Ty]) -> Out { u941(c12::functions::fun79::decode_output(d), t) }
fn k941(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun79::call(arg::<[[[Vec<Uint>; 2]; 2]; 2]>(v, 0)); (i, u941(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u942(r: ethabi::Result<Vec<Vec<Vec<[Uint; 2]>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e942(v: &[Val]) -> Vec<u8> { c12::functions::fun80::encode_input(arg::<Vec<Vec<Vec<[Uint; 2]>>>>(v, 0)) }
fn d942(d: &[u8], t: &[Ty]) -> Out { u942(c12::functions::fun80::decode_output(d), t) }
fn k942(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun80::call(arg::<Vec<Vec<Vec<[Uint; 2]>>>>(v, 0)); (i, u942(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u943(r: ethabi::Result<[Vec<Vec<[Uint; 2]>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e943(v: &[Val]) -> Vec<u8> { c12::functions::fun81::encode_input(arg::<[Vec<Vec<[Uint; 2]>>; 2]>(v, 0)) }
fn d943(d: &[u8], t: &[Ty]) -> Out { u943(c12::functions::fun81::decode_output(d), t) }
fn k943(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun81::call(arg::<[Vec<Vec<[Uint; 2]>>; 2]>(v, 0)); (i, u943(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u944(r: ethabi::Result<Vec<[Vec<[Uint; 2]>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e944(v: &[Val]) -> Vec<u8> { c12::functions::fun82::encode_input(arg::<Vec<[Vec<[Uint; 2]>; 2]>>(v, 0)) }
fn d944(d: &[u8], t: &[Ty]) -> Out { u944(c12::functions::fun82::decode_output(d), t) }
fn k944(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun82::call(arg::<Vec<[Vec<[Uint; 2]>; 2]>>(v, 0)); (i, u944(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u945(r: ethabi::Result<[[Vec<[Uint; 2]>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e945(v: &[Val]) -> Vec<u8> { c12::functions::fun83::encode_input(arg::<[[Vec<[Uint; 2]>; 2]; 2]>(v, 0)) }
fn d945(d: &[u8], t: &[Ty]) -> Out { u945(c12::functions::fun83::decode_output(d), t) }
fn k945(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun83::call(arg::<[[Vec<[Uint; 2]>; 2]; 2]>(v, 0)); (i, u945(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u946(r: ethabi::Result<Vec<Vec<[[Uint; 2]; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e946(v: &[Val]) -> Vec<u8> { c12::functions::fun84::encode_input(arg::<Vec<Vec<[[Uint; 2]; 2]>>>(v, 0)) }
fn d946(d: &[u8], t: &[Ty]) -> Out { u946(c12::functions::fun84::decode_output(d), t) }
fn k946(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun84::call(arg::<Vec<Vec<[[Uint; 2]; 2]>>>(v, 0)); (i, u946(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u947(r: ethabi::Result<[Vec<[[Uint; 2]; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e947(v: &[Val]) -> Vec<u8> { c12::functions::fun85::encode_input(arg::<[Vec<[[Uint; 2]; 2]>; 2]>(v, 0)) }
fn d947(d: &[u8], t: &[Ty]) -> Out { u947(c12::functions::fun85::decode_output(d), t) }
fn k947(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun85::call(arg::<[Vec<[[Uint; 2]; 2]>; 2]>(v, 0)); (i, u947(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u948(r: ethabi::Result<Vec<[[[Uint; 2]; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e948(v: &[Val]) -> Vec<u8> { c12::functions::fun86::encode_input(arg::<Vec<[[[Uint; 2]; 2]; 2]>>(v, 0)) }
fn d948(d: &[u8], t: &[Ty]) -> Out { u948(c12::functions::fun86::decode_output(d), t) }
fn k948(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun86::call(arg::<Vec<[[[Uint; 2]; 2]; 2]>>(v, 0)); (i, u948(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u949(r: ethabi::Result<[[[[Uint; 2]; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e949(v: &[Val]) -> Vec<u8> { c12::functions::fun87::encode_input(arg::<[[[[Uint; 2]; 2]; 2]; 2]>(v, 0)) }
fn d949(d: &[u8], t: &[Ty]) -> Out { u949(c12::functions::fun87::decode_output(d), t) }
fn k949(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun87::call(arg::<[[[[Uint; 2]; 2]; 2]; 2]>(v, 0)); (i, u949(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u950(r: ethabi::Result<Vec<Vec<Vec<Vec<Vec<Vec<Vec<Uint>>>>>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e950(v: &[Val]) -> Vec<u8> { c12::functions::fun88::encode_input(arg::<Vec<Vec<Vec<Vec<Vec<Vec<Vec<Uint>>>>>>>>(v, 0)) }
fn d950(d: &[u8], t: &[Ty]) -> Out { u950(c12::functions::fun88::decode_output(d), t) }
fn k950(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun88::call(arg::<Vec<Vec<Vec<Vec<Vec<Vec<Vec<Uint>>>>>>>>(v, 0)); (i, u950(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u951(r: ethabi::Result<[[[[[[[Uint; 1]; 1]; 1]; 1]; 1]; 1]; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e951(v: &[Val]) -> Vec<u8> { c12::functions::fun89::encode_input(arg::<[[[[[[[Uint; 1]; 1]; 1]; 1]; 1]; 1]; 1]>(v, 0)) }
fn d951(d: &[u8], t: &[Ty]) -> Out { u951(c12::functions::fun89::decode_output(d), t) }
fn k951(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun89::call(arg::<[[[[[[[Uint; 1]; 1]; 1]; 1]; 1]; 1]; 1]>(v, 0)); (i, u951(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u952(r: ethabi::Result<Vec<Vec<Vec<Vec<String>>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e952(v: &[Val]) -> Vec<u8> { c12::functions::fun90::encode_input(arg::<Vec<Vec<Vec<Vec<String>>>>>(v, 0)) }
fn d952(d: &[u8], t: &[Ty]) -> Out { u952(c12::functions::fun90::decode_output(d), t) }
fn k952(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun90::call(arg::<Vec<Vec<Vec<Vec<String>>>>>(v, 0)); (i, u952(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u953(r: ethabi::Result<[Vec<Vec<Vec<String>>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e953(v: &[Val]) -> Vec<u8> { c12::functions::fun91::encode_input(arg::<[Vec<Vec<Vec<String>>>; 2]>(v, 0)) }
fn d953(d: &[u8], t: &[Ty]) -> Out { u953(c12::functions::fun91::decode_output(d), t) }
fn k953(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun91::call(arg::<[Vec<Vec<Vec<String>>>; 2]>(v, 0)); (i, u953(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u954(r: ethabi::Result<Vec<[Vec<Vec<String>>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e954(v: &[Val]) -> Vec<u8> { c12::functions::fun92::encode_input(arg::<Vec<[Vec<Vec<String>>; 2]>>(v, 0)) }
fn d954(d: &[u8], t: &[Ty]) -> Out { u954(c12::functions::fun92::decode_output(d), t) }
fn k954(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun92::call(arg::<Vec<[Vec<Vec<String>>; 2]>>(v, 0)); (i, u954(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u955(r: ethabi::Result<[[Vec<Vec<String>>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e955(v: &[Val]) -> Vec<u8> { c12::functions::fun93::encode_input(arg::<[[Vec<Vec<String>>; 2]; 2]>(v, 0)) }
fn d955(d: &[u8], t: &[Ty]) -> Out { u955(c12::functions::fun93::decode_output(d), t) }
fn k955(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun93::call(arg::<[[Vec<Vec<String>>; 2]; 2]>(v, 0)); (i, u955(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u956(r: ethabi::Result<Vec<Vec<[Vec<String>; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e956(v: &[Val]) -> Vec<u8> { c12::functions::fun94::encode_input(arg::<Vec<Vec<[Vec<String>; 2]>>>(v, 0)) }
fn d956(d: &[u8], t: &[Ty]) -> Out { u956(c12::functions::fun94::decode_output(d), t) }
fn k956(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun94::call(arg::<Vec<Vec<[Vec<String>; 2]>>>(v, 0)); (i, u956(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u957(r: ethabi::Result<[Vec<[Vec<String>; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e957(v: &[Val]) -> Vec<u8> { c12::functions::fun95::encode_input(arg::<[Vec<[Vec<String>; 2]>; 2]>(v, 0)) }
fn d957(d: &[u8], t: &[Ty]) -> Out { u957(c12::functions::fun95::decode_output(d), t) }
fn k957(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun95::call(arg::<[Vec<[Vec<String>; 2]>; 2]>(v, 0)); (i, u957(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u958(r: ethabi::Result<Vec<[[Vec<String>; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e958(v: &[Val]) -> Vec<u8> { c12::functions::fun96::encode_input(arg::<Vec<[[Vec<String>; 2]; 2]>>(v, 0)) }
fn d958(d: &[u8], t: &[Ty]) -> Out { u958(c12::functions::fun96::decode_output(d), t) }
fn k958(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun96::call(arg::<Vec<[[Vec<String>; 2]; 2]>>(v, 0)); (i, u958(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u959(r: ethabi::Result<[[[Vec<String>; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e959(v: &[Val]) -> Vec<u8> { c12::functions::fun97::encode_input(arg::<[[[Vec<String>; 2]; 2]; 2]>(v, 0)) }
fn d959(d: &[u8], t: &[Ty]) -> Out { u959(c12::functions::fun97::decode_output(d), t) }
fn k959(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun97::call(arg::<[[[Vec<String>; 2]; 2]; 2]>(v, 0)); (i, u959(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u960(r: ethabi::Result<Vec<Vec<Vec<[String; 2]>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e960(v: &[Val]) -> Vec<u8> { c12::functions::fun98::encode_input(arg::<Vec<Vec<Vec<[String; 2]>>>>(v, 0)) }
fn d960(d: &[u8], t: &[Ty]) -> Out { u960(c12::functions::fun98::decode_output(d), t) }
fn k960(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun98::call(arg::<Vec<Vec<Vec<[String; 2]>>>>(v, 0)); (i, u960(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u961(r: ethabi::Result<[Vec<Vec<[String; 2]>>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e961(v: &[Val]) -> Vec<u8> { c12::functions::fun99::encode_input(arg::<[Vec<Vec<[String; 2]>>; 2]>(v, 0)) }
fn d961(d: &[u8], t: &[Ty]) -> Out { u961(c12::functions::fun99::decode_output(d), t) }
fn k961(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun99::call(arg::<[Vec<Vec<[String; 2]>>; 2]>(v, 0)); (i, u961(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u962(r: ethabi::Result<Vec<[Vec<[String; 2]>; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e962(v: &[Val]) -> Vec<u8> { c12::functions::fun100::encode_input(arg::<Vec<[Vec<[String; 2]>; 2]>>(v, 0)) }
fn d962(d: &[u8], t: &[Ty]) -> Out { u962(c12::functions::fun100::decode_output(d), t) }
fn k962(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun100::call(arg::<Vec<[Vec<[String; 2]>; 2]>>(v, 0)); (i, u962(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u963(r: ethabi::Result<[[Vec<[String; 2]>; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e963(v: &[Val]) -> Vec<u8> { c12::functions::fun101::encode_input(arg::<[[Vec<[String; 2]>; 2]; 2]>(v, 0)) }
fn d963(d: &[u8], t: &[Ty]) -> Out { u963(c12::functions::fun101::decode_output(d), t) }
fn k963(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun101::call(arg::<[[Vec<[String; 2]>; 2]; 2]>(v, 0)); (i, u963(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u964(r: ethabi::Result<Vec<Vec<[[String; 2]; 2]>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e964(v: &[Val]) -> Vec<u8> { c12::functions::fun102::encode_input(arg::<Vec<Vec<[[String; 2]; 2]>>>(v, 0)) }
fn d964(d: &[u8], t: &[Ty]) -> Out { u964(c12::functions::fun102::decode_output(d), t) }
fn k964(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun102::call(arg::<Vec<Vec<[[String; 2]; 2]>>>(v, 0)); (i, u964(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u965(r: ethabi::Result<[Vec<[[String; 2]; 2]>; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e965(v: &[Val]) -> Vec<u8> { c12::functions::fun103::encode_input(arg::<[Vec<[[String; 2]; 2]>; 2]>(v, 0)) }
fn d965(d: &[u8], t: &[Ty]) -> Out { u965(c12::functions::fun103::decode_output(d), t) }
fn k965(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun103::call(arg::<[Vec<[[String; 2]; 2]>; 2]>(v, 0)); (i, u965(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u966(r: ethabi::Result<Vec<[[[String; 2]; 2]; 2]>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e966(v: &[Val]) -> Vec<u8> { c12::functions::fun104::encode_input(arg::<Vec<[[[String; 2]; 2]; 2]>>(v, 0)) }
fn d966(d: &[u8], t: &[Ty]) -> Out { u966(c12::functions::fun104::decode_output(d), t) }
fn k966(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun104::call(arg::<Vec<[[[String; 2]; 2]; 2]>>(v, 0)); (i, u966(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u967(r: ethabi::Result<[[[[String; 2]; 2]; 2]; 2]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e967(v: &[Val]) -> Vec<u8> { c12::functions::fun105::encode_input(arg::<[[[[String; 2]; 2]; 2]; 2]>(v, 0)) }
fn d967(d: &[u8], t: &[Ty]) -> Out { u967(c12::functions::fun105::decode_output(d), t) }
fn k967(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun105::call(arg::<[[[[String; 2]; 2]; 2]; 2]>(v, 0)); (i, u967(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u968(r: ethabi::Result<Vec<Vec<Vec<Vec<Vec<Vec<Vec<String>>>>>>>>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e968(v: &[Val]) -> Vec<u8> { c12::functions::fun106::encode_input(arg::<Vec<Vec<Vec<Vec<Vec<Vec<Vec<String>>>>>>>>(v, 0)) }
fn d968(d: &[u8], t: &[Ty]) -> Out { u968(c12::functions::fun106::decode_output(d), t) }
fn k968(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun106::call(arg::<Vec<Vec<Vec<Vec<Vec<Vec<Vec<String>>>>>>>>(v, 0)); (i, u968(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u969(r: ethabi::Result<[[[[[[[String; 1]; 1]; 1]; 1]; 1]; 1]; 1]>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e969(v: &[Val]) -> Vec<u8> { c12::functions::fun107::encode_input(arg::<[[[[[[[String; 1]; 1]; 1]; 1]; 1]; 1]; 1]>(v, 0)) }
fn d969(d: &[u8], t: &[Ty]) -> Out { u969(c12::functions::fun107::decode_output(d), t) }
fn k969(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c12::functions::fun107::call(arg::<[[[[[[[String; 1]; 1]; 1]; 1]; 1]; 1]; 1]>(v, 0)); (i, u969(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u970(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e970(v: &[Val]) -> Vec<u8> { c13::functions::a::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d970(d: &[u8], t: &[Ty]) -> Out { u970(c13::functions::a::decode_output(d), t) }
fn k970(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::a::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u970(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u971(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e971(v: &[Val]) -> Vec<u8> { c13::functions::b::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d971(d: &[u8], t: &[Ty]) -> Out { u971(c13::functions::b::decode_output(d), t) }
fn k971(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::b::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u971(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u972(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e972(v: &[Val]) -> Vec<u8> { c13::functions::x1::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d972(d: &[u8], t: &[Ty]) -> Out { u972(c13::functions::x1::decode_output(d), t) }
fn k972(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::x1::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u972(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u973(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e973(v: &[Val]) -> Vec<u8> { c13::functions::x1y2::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d973(d: &[u8], t: &[Ty]) -> Out { u973(c13::functions::x1y2::decode_output(d), t) }
fn k973(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::x1y2::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u973(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u974(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e974(v: &[Val]) -> Vec<u8> { c13::functions::get_x::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d974(d: &[u8], t: &[Ty]) -> Out { u974(c13::functions::get_x::decode_output(d), t) }
fn k974(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::get_x::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u974(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u975(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e975(v: &[Val]) -> Vec<u8> { c13::functions::get_id::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d975(d: &[u8], t: &[Ty]) -> Out { u975(c13::functions::get_id::decode_output(d), t) }
fn k975(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::get_id::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u975(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u976(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e976(v: &[Val]) -> Vec<u8> { c13::functions::do_it2_times::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d976(d: &[u8], t: &[Ty]) -> Out { u976(c13::functions::do_it2_times::decode_output(d), t) }
fn k976(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::do_it2_times::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u976(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u977(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e977(v: &[Val]) -> Vec<u8> { c13::functions::leading::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d977(d: &[u8], t: &[Ty]) -> Out { u977(c13::functions::leading::decode_output(d), t) }
fn k977(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::leading::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u977(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u978(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e978(v: &[Val]) -> Vec<u8> { c13::functions::trailing::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d978(d: &[u8], t: &[Ty]) -> Out { u978(c13::functions::trailing::decode_output(d), t) }
fn k978(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::trailing::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u978(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u979(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e979(v: &[Val]) -> Vec<u8> { c13::functions::a_b_c::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d979(d: &[u8], t: &[Ty]) -> Out { u979(c13::functions::a_b_c::decode_output(d), t) }
fn k979(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::a_b_c::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u979(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u980(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e980(v: &[Val]) -> Vec<u8> { c13::functions::double_under::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d980(d: &[u8], t: &[Ty]) -> Out { u980(c13::functions::double_under::decode_output(d), t) }
fn k980(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::double_under::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u980(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u981(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e981(v: &[Val]) -> Vec<u8> { c13::functions::allcaps::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d981(d: &[u8], t: &[Ty]) -> Out { u981(c13::functions::allcaps::decode_output(d), t) }
fn k981(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::allcaps::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u981(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u982(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e982(v: &[Val]) -> Vec<u8> { c13::functions::mixed_case::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d982(d: &[u8], t: &[Ty]) -> Out { u982(c13::functions::mixed_case::decode_output(d), t) }
fn k982(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mixed_case::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u982(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u983(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e983(v: &[Val]) -> Vec<u8> { c13::functions::erc20::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d983(d: &[u8], t: &[Ty]) -> Out { u983(c13::functions::erc20::decode_output(d), t) }
fn k983(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::erc20::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u983(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u984(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e984(v: &[Val]) -> Vec<u8> { c13::functions::balance_of::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d984(d: &[u8], t: &[Ty]) -> Out { u984(c13::functions::balance_of::decode_output(d), t) }
fn k984(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::balance_of::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u984(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u985(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e985(v: &[Val]) -> Vec<u8> { c13::functions::new::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d985(d: &[u8], t: &[Ty]) -> Out { u985(c13::functions::new::decode_output(d), t) }
fn k985(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::new::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u985(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u986(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e986(v: &[Val]) -> Vec<u8> { c13::functions::vec::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d986(d: &[u8], t: &[Ty]) -> Out { u986(c13::functions::vec::decode_output(d), t) }
fn k986(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::vec::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u986(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u987(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e987(v: &[Val]) -> Vec<u8> { c13::functions::option::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d987(d: &[u8], t: &[Ty]) -> Out { u987(c13::functions::option::decode_output(d), t) }
fn k987(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::option::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u987(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u988(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e988(v: &[Val]) -> Vec<u8> { c13::functions::ethabi::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d988(d: &[u8], t: &[Ty]) -> Out { u988(c13::functions::ethabi::decode_output(d), t) }
fn k988(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::ethabi::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u988(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u989(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e989(v: &[Val]) -> Vec<u8> { c13::functions::decoder::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d989(d: &[u8], t: &[Ty]) -> Out { u989(c13::functions::decoder::decode_output(d), t) }
fn k989(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::decoder::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u989(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u990(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e990(v: &[Val]) -> Vec<u8> { c13::functions::tokens::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d990(d: &[u8], t: &[Ty]) -> Out { u990(c13::functions::tokens::decode_output(d), t) }
fn k990(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::tokens::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u990(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u991(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e991(v: &[Val]) -> Vec<u8> { c13::functions::output::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d991(d: &[u8], t: &[Ty]) -> Out { u991(c13::functions::output::decode_output(d), t) }
fn k991(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::output::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u991(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u992(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e992(v: &[Val]) -> Vec<u8> { c13::functions::out::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d992(d: &[u8], t: &[Ty]) -> Out { u992(c13::functions::out::decode_output(d), t) }
fn k992(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::out::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u992(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u993(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e993(v: &[Val]) -> Vec<u8> { c13::functions::string::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d993(d: &[u8], t: &[Ty]) -> Out { u993(c13::functions::string::decode_output(d), t) }
fn k993(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::string::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u993(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u994(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e994(v: &[Val]) -> Vec<u8> { c13::functions::uint256::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d994(d: &[u8], t: &[Ty]) -> Out { u994(c13::functions::uint256::decode_output(d), t) }
fn k994(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::uint256::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u994(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u995(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e995(v: &[Val]) -> Vec<u8> { c13::functions::result::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d995(d: &[u8], t: &[Ty]) -> Out { u995(c13::functions::result::decode_output(d), t) }
fn k995(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::result::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u995(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u996(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e996(v: &[Val]) -> Vec<u8> { c13::functions::internal_err::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d996(d: &[u8], t: &[Ty]) -> Out { u996(c13::functions::internal_err::decode_output(d), t) }
fn k996(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::internal_err::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u996(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u997(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e997(v: &[Val]) -> Vec<u8> { c13::functions::getx::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d997(d: &[u8], t: &[Ty]) -> Out { u997(c13::functions::getx::decode_output(d), t) }
fn k997(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::getx::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u997(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u998(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e998(v: &[Val]) -> Vec<u8> { c13::functions::getid::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d998(d: &[u8], t: &[Ty]) -> Out { u998(c13::functions::getid::decode_output(d), t) }
fn k998(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::getid::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u998(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u999(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e999(v: &[Val]) -> Vec<u8> { c13::functions::balanceof::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d999(d: &[u8], t: &[Ty]) -> Out { u999(c13::functions::balanceof::decode_output(d), t) }
fn k999(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::balanceof::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u999(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1000(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1000(v: &[Val]) -> Vec<u8> { c13::functions::a_bc::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1000(d: &[u8], t: &[Ty]) -> Out { u1000(c13::functions::a_bc::decode_output(d), t) }
fn k1000(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::a_bc::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1000(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1001(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1001(v: &[Val]) -> Vec<u8> { c13::functions::abc::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1001(d: &[u8], t: &[Ty]) -> Out { u1001(c13::functions::abc::decode_output(d), t) }
fn k1001(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::abc::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1001(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1002(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1002(v: &[Val]) -> Vec<u8> { c13::functions::ab_c::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1002(d: &[u8], t: &[Ty]) -> Out { u1002(c13::functions::ab_c::decode_output(d), t) }
fn k1002(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::ab_c::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1002(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1003(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1003(v: &[Val]) -> Vec<u8> { c13::functions::doit2times::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1003(d: &[u8], t: &[Ty]) -> Out { u1003(c13::functions::doit2times::decode_output(d), t) }
fn k1003(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::doit2times::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1003(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1004(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1004(v: &[Val]) -> Vec<u8> { c13::functions::mixedcase::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1004(d: &[u8], t: &[Ty]) -> Out { u1004(c13::functions::mixedcase::decode_output(d), t) }
fn k1004(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mixedcase::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1004(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1005(r: ethabi::Result<(String, Uint)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1005(v: &[Val]) -> Vec<u8> { c13::functions::x_1::encode_input(arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn d1005(d: &[u8], t: &[Ty]) -> Out { u1005(c13::functions::x_1::decode_output(d), t) }
fn k1005(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::x_1::call(arg::<Uint>(v, 0), arg::<String>(v, 1)); (i, u1005(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1006(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1006(v: &[Val]) -> Vec<u8> { c13::functions::named0::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1006(d: &[u8], t: &[Ty]) -> Out { u1006(c13::functions::named0::decode_output(d), t) }
fn k1006(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named0::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1006(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1007(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1007(v: &[Val]) -> Vec<u8> { c13::functions::named1::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1007(d: &[u8], t: &[Ty]) -> Out { u1007(c13::functions::named1::decode_output(d), t) }
fn k1007(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named1::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1007(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1008(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1008(v: &[Val]) -> Vec<u8> { c13::functions::named2::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1008(d: &[u8], t: &[Ty]) -> Out { u1008(c13::functions::named2::decode_output(d), t) }
fn k1008(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named2::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1008(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1009(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1009(v: &[Val]) -> Vec<u8> { c13::functions::named3::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1009(d: &[u8], t: &[Ty]) -> Out { u1009(c13::functions::named3::decode_output(d), t) }
fn k1009(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named3::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1009(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1010(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1010(v: &[Val]) -> Vec<u8> { c13::functions::named4::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1010(d: &[u8], t: &[Ty]) -> Out { u1010(c13::functions::named4::decode_output(d), t) }
fn k1010(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named4::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1010(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1011(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1011(v: &[Val]) -> Vec<u8> { c13::functions::named5::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1011(d: &[u8], t: &[Ty]) -> Out { u1011(c13::functions::named5::decode_output(d), t) }
fn k1011(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named5::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1011(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1012(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1012(v: &[Val]) -> Vec<u8> { c13::functions::named6::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1012(d: &[u8], t: &[Ty]) -> Out { u1012(c13::functions::named6::decode_output(d), t) }
fn k1012(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named6::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1012(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1013(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1013(v: &[Val]) -> Vec<u8> { c13::functions::named7::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1013(d: &[u8], t: &[Ty]) -> Out { u1013(c13::functions::named7::decode_output(d), t) }
fn k1013(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named7::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1013(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1014(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1014(v: &[Val]) -> Vec<u8> { c13::functions::named8::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1014(d: &[u8], t: &[Ty]) -> Out { u1014(c13::functions::named8::decode_output(d), t) }
fn k1014(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named8::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1014(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1015(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1015(v: &[Val]) -> Vec<u8> { c13::functions::named9::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1015(d: &[u8], t: &[Ty]) -> Out { u1015(c13::functions::named9::decode_output(d), t) }
fn k1015(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named9::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1015(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1016(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1016(v: &[Val]) -> Vec<u8> { c13::functions::named10::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1016(d: &[u8], t: &[Ty]) -> Out { u1016(c13::functions::named10::decode_output(d), t) }
fn k1016(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named10::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1016(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1017(r: ethabi::Result<([Uint; 2], bool)>, t: &[Ty]) -> Out { r.map(|(o0, o1)| vec![o0.to_val(&t[0]), o1.to_val(&t[1])]).map_err(|e| e.to_string()) }
fn e1017(v: &[Val]) -> Vec<u8> { c13::functions::named11::encode_input(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)) }
fn d1017(d: &[u8], t: &[Ty]) -> Out { u1017(c13::functions::named11::decode_output(d), t) }
fn k1017(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::named11::call(arg::<Vec<Uint>>(v, 0), arg::<[String; 2]>(v, 1)); (i, u1017(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1018(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1018(v: &[Val]) -> Vec<u8> { c13::functions::mut_pure_true::encode_input(arg::<Uint>(v, 0)) }
fn d1018(d: &[u8], t: &[Ty]) -> Out { u1018(c13::functions::mut_pure_true::decode_output(d), t) }
fn k1018(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_pure_true::call(arg::<Uint>(v, 0)); (i, u1018(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1019(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1019(v: &[Val]) -> Vec<u8> { c13::functions::mut_pure_false::encode_input(arg::<Uint>(v, 0)) }
fn d1019(d: &[u8], t: &[Ty]) -> Out { u1019(c13::functions::mut_pure_false::decode_output(d), t) }
fn k1019(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_pure_false::call(arg::<Uint>(v, 0)); (i, u1019(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1020(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1020(v: &[Val]) -> Vec<u8> { c13::functions::mut_view_true::encode_input(arg::<Uint>(v, 0)) }
fn d1020(d: &[u8], t: &[Ty]) -> Out { u1020(c13::functions::mut_view_true::decode_output(d), t) }
fn k1020(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_view_true::call(arg::<Uint>(v, 0)); (i, u1020(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1021(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1021(v: &[Val]) -> Vec<u8> { c13::functions::mut_view_false::encode_input(arg::<Uint>(v, 0)) }
fn d1021(d: &[u8], t: &[Ty]) -> Out { u1021(c13::functions::mut_view_false::decode_output(d), t) }
fn k1021(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_view_false::call(arg::<Uint>(v, 0)); (i, u1021(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1022(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1022(v: &[Val]) -> Vec<u8> { c13::functions::mut_nonpayable_true::encode_input(arg::<Uint>(v, 0)) }
fn d1022(d: &[u8], t: &[Ty]) -> Out { u1022(c13::functions::mut_nonpayable_true::decode_output(d), t) }
fn k1022(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_nonpayable_true::call(arg::<Uint>(v, 0)); (i, u1022(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1023(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1023(v: &[Val]) -> Vec<u8> { c13::functions::mut_nonpayable_false::encode_input(arg::<Uint>(v, 0)) }
fn d1023(d: &[u8], t: &[Ty]) -> Out { u1023(c13::functions::mut_nonpayable_false::decode_output(d), t) }
fn k1023(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_nonpayable_false::call(arg::<Uint>(v, 0)); (i, u1023(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1024(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1024(v: &[Val]) -> Vec<u8> { c13::functions::mut_payable_true::encode_input(arg::<Uint>(v, 0)) }
fn d1024(d: &[u8], t: &[Ty]) -> Out { u1024(c13::functions::mut_payable_true::decode_output(d), t) }
fn k1024(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_payable_true::call(arg::<Uint>(v, 0)); (i, u1024(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }
fn u1025(r: ethabi::Result<bool>, t: &[Ty]) -> Out { r.map(|o0| vec![o0.to_val(&t[0])]).map_err(|e| e.to_string()) }
fn e1025(v: &[Val]) -> Vec<u8> { c13::functions::mut_payable_false::encode_input(arg::<Uint>(v, 0)) }
fn d1025(d: &[u8], t: &[Ty]) -> Out { u1025(c13::functions::mut_payable_false::decode_output(d), t) }
fn k1025(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = c13::functions::mut_payable_false::call(arg::<Uint>(v, 0)); (i, u1025(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }

pub const FNS: &[FnCase] = &[
    FnCase { contract: 0, name: "fun0", encode: e0, decode: d0, call: k0 },
    FnCase { contract: 0, name: "fun1", encode: e1, decode: d1, call: k1 },
    FnCase { contract: 0, name: "fun2", encode: e2, decode: d2, call: k2 },
    FnCase { contract: 0, name: "fun3", encode: e3, decode: d3, call: k3 },
    FnCase { contract: 0, name: "fun4", encode: e4, decode: d4, call: k4 },
    FnCase { contract: 0, name: "fun5", encode: e5, decode: d5, call: k5 },
    FnCase { contract: 0, name: "fun6", encode: e6, decode: d6, call: k6 },
    FnCase { contract: 0, name: "fun7", encode: e7, decode: d7, call: k7 },
    FnCase { contract: 0, name: "fun8", encode: e8, decode: d8, call: k8 },
    FnCase { contract: 0, name: "fun9", encode: e9, decode: d9, call: k9 },
    FnCase { contract: 0, name: "fun10", encode: e10, decode: d10, call: k10 },
    FnCase { contract: 0, name: "fun11", encode: e11, decode: d11, call: k11 },
    FnCase { contract: 0, name: "fun12", encode: e12, decode: d12, call: k12 },
    FnCase { contract: 0, name: "fun13", encode: e13, decode: d13, call: k13 },
    FnCase { contract: 0, name: "fun14", encode: e14, decode: d14, call: k14 },
    FnCase { contract: 0, name: "fun15", encode: e15, decode: d15, call: k15 },
    FnCase { contract: 0, name: "fun16", encode: e16, decode: d16, call: k16 },
    FnCase { contract: 0, name: "fun17", encode: e17, decode: d17, call: k17 },
    FnCase { contract: 0, name: "fun18", encode: e18, decode: d18, call: k18 },
    FnCase { contract: 0, name: "fun19", encode: e19, decode: d19, call: k19 },
    FnCase { contract: 0, name: "fun20", encode: e20, decode: d20, call: k20 },
    FnCase { contract: 0, name: "fun21", encode: e21, decode: d21, call: k21 },
    FnCase { contract: 0, name: "fun22", encode: e22, decode: d22, call: k22 },
    FnCase { contract: 0, name: "fun23", encode: e23, decode: d23, call: k23 },
    FnCase { contract: 0, name: "fun24", encode: e24, decode: d24, call: k24 },
    FnCase { contract: 0, name: "fun25", encode: e25, decode: d25, call: k25 },
    FnCase { contract: 0, name: "fun26", encode: e26, decode: d26, call: k26 },
    FnCase { contract: 0, name: "fun27", encode: e27, decode: d27, call: k27 },
    FnCase { contract: 0, name: "fun28", encode: e28, decode: d28, call: k28 },
    FnCase { contract: 0, name: "fun29", encode: e29, decode: d29, call: k29 },
    FnCase { contract: 0, name: "fun30", encode: e30, decode: d30, call: k30 },
    FnCase { contract: 0, name: "fun31", encode: e31, decode: d31, call: k31 },
    FnCase { contract: 0, name: "fun32", encode: e32, decode: d32, call: k32 },
    FnCase { contract: 0, name: "fun33", encode: e33, decode: d33, call: k33 },
    FnCase { contract: 0, name: "fun34", encode: e34, decode: d34, call: k34 },
    FnCase { contract: 0, name: "fun35", encode: e35, decode: d35, call: k35 },
    FnCase { contract: 0, name: "fun36", encode: e36, decode: d36, call: k36 },
    FnCase { contract: 0, name: "fun37", encode: e37, decode: d37, call: k37 },
    FnCase { contract: 0, name: "fun38", encode: e38, decode: d38, call: k38 },
    FnCase { contract: 0, name: "fun39", encode: e39, decode: d39, call: k39 },
    FnCase { contract: 0, name: "fun40", encode: e40, decode: d40, call: k40 },
    FnCase { contract: 0, name: "fun41", encode: e41, decode: d41, call: k41 },
    FnCase { contract: 0, name: "fun42", encode: e42, decode: d42, call: k42 },
    FnCase { contract: 0, name: "fun43", encode: e43, decode: d43, call: k43 },
    FnCase { contract: 0, name: "fun44", encode: e44, decode: d44, call: k44 },
    FnCase { contract: 0, name: "fun45", encode: e45, decode: d45, call: k45 },
    FnCase { contract: 0, name: "fun46", encode: e46, decode: d46, call: k46 },
    FnCase { contract: 0, name: "fun47", encode: e47, decode: d47, call: k47 },
    FnCase { contract: 0, name: "fun48", encode: e48, decode: d48, call: k48 },
    FnCase { contract: 0, name: "fun49", encode: e49, decode: d49, call: k49 },
    FnCase { contract: 0, name: "fun50", encode: e50, decode: d50, call: k50 },
    FnCase { contract: 0, name: "fun51", encode: e51, decode: d51, call: k51 },
    FnCase { contract: 0, name: "fun52", encode: e52, decode: d52, call: k52 },
    FnCase { contract: 0, name: "fun53", encode: e53, decode: d53, call: k53 },
    FnCase { contract: 0, name: "fun54", encode: e54, decode: d54, call: k54 },
    FnCase { contract: 0, name: "fun55", encode: e55, decode: d55, call: k55 },
    FnCase { contract: 0, name: "fun56", encode: e56, decode: d56, call: k56 },
    FnCase { contract: 0, name: "fun57", encode: e57, decode: d57, call: k57 },
    FnCase { contract: 0, name: "fun58", encode: e58, decode: d58, call: k58 },
    FnCase { contract: 0, name: "fun59", encode: e59, decode: d59, call: k59 },
    FnCase { contract: 0, name: "fun60", encode: e60, decode: d60, call: k60 },
    FnCase { contract: 0, name: "fun61", encode: e61, decode: d61, call: k61 },
    FnCase { contract: 0, name: "fun62", encode: e62, decode: d62, call: k62 },
    FnCase { contract: 0, name: "fun63", encode: e63, decode: d63, call: k63 },
    FnCase { contract: 0, name: "fun64", encode: e64, decode: d64, call: k64 },
    FnCase { contract: 0, name: "fun65", encode: e65, decode: d65, call: k65 },
    FnCase { contract: 0, name: "fun66", encode: e66, decode: d66, call: k66 },
    FnCase { contract: 0, name: "fun67", encode: e67, decode: d67, call: k67 },
    FnCase { contract: 0, name: "fun68", encode: e68, decode: d68, call: k68 },
    FnCase { contract: 0, name: "fun69", encode: e69, decode: d69, call: k69 },
    FnCase { contract: 0, name: "fun70", encode: e70, decode: d70, call: k70 },
    FnCase { contract: 0, name: "fun71", encode: e71, decode: d71, call: k71 },
    FnCase { contract: 0, name: "fun72", encode: e72, decode: d72, call: k72 },
    FnCase { contract: 0, name: "fun73", encode: e73, decode: d73, call: k73 },
    FnCase { contract: 0, name: "fun74", encode: e74, decode: d74, call: k74 },
    FnCase { contract: 0, name: "fun75", encode: e75, decode: d75, call: k75 },
    FnCase { contract: 0, name: "fun76", encode: e76, decode: d76, call: k76 },
    FnCase { contract: 0, name: "fun77", encode: e77, decode: d77, call: k77 },
    FnCase { contract: 0, name: "fun78", encode: e78, decode: d78, call: k78 },
    FnCase { contract: 0, name: "fun79", encode: e79, decode: d79, call: k79 },
    FnCase { contract: 0, name: "fun80", encode: e80, decode: d80, call: k80 },
    FnCase { contract: 0, name: "fun81", encode: e81, decode: d81, call: k81 },
    FnCase { contract: 0, name: "fun82", encode: e82, decode: d82, call: k82 },
    FnCase { contract: 0, name: "fun83", encode: e83, decode: d83, call: k83 },
    FnCase { contract: 0, name: "fun84", encode: e84, decode: d84, call: k84 },
    FnCase { contract: 0, name: "fun85", encode: e85, decode: d85, call: k85 },
    FnCase { contract: 0, name: "fun86", encode: e86, decode: d86, call: k86 },
    FnCase { contract: 0, name: "fun87", encode: e87, decode: d87, call: k87 },
    FnCase { contract: 0, name: "fun88", encode: e88, decode: d88, call: k88 },
    FnCase { contract: 0, name: "fun89", encode: e89, decode: d89, call: k89 },
    FnCase { contract: 0, name: "fun90", encode: e90, decode: d90, call: k90 },
    FnCase { contract: 0, name: "fun91", encode: e91, decode: d91, call: k91 },
    FnCase { contract: 0, name: "fun92", encode: e92, decode: d92, call: k92 },
    FnCase { contract: 0, name: "fun93", encode: e93, decode: d93, call: k93 },
    FnCase { contract: 0, name: "fun94", encode: e94, decode: d94, call: k94 },
    FnCase { contract: 0, name: "fun95", encode: e95, decode: d95, call: k95 },
    FnCase { contract: 0, name: "fun96", encode: e96, decode: d96, call: k96 },
    FnCase { contract: 0, name: "fun97", encode: e97, decode: d97, call: k97 },
    FnCase { contract: 0, name: "fun98", encode: e98, decode: d98, call: k98 },
    FnCase { contract: 0, name: "fun99", encode: e99, decode: d99, call: k99 },
    FnCase { contract: 1, name: "fun0", encode: e100, decode: d100, call: k100 },
    FnCase { contract: 1, name: "fun1", encode: e101, decode: d101, call: k101 },
    FnCase { contract: 1, name: "fun2", encode: e102, decode: d102, call: k102 },
    FnCase { contract: 1, name: "fun3", encode: e103, decode: d103, call: k103 },
    FnCase { contract: 1, name: "fun4", encode: e104, decode: d104, call: k104 },
    FnCase { contract: 1, name: "fun5", encode: e105, decode: d105, call: k105 },
    FnCase { contract: 1, name: "fun6", encode: e106, decode: d106, call: k106 },
    FnCase { contract: 1, name: "fun7", encode: e107, decode: d107, call: k107 },
    FnCase { contract: 1, name: "fun8", encode: e108, decode: d108, call: k108 },
    FnCase { contract: 1, name: "fun9", encode: e109, decode: d109, call: k109 },
    FnCase { contract: 1, name: "fun10", encode: e110, decode: d110, call: k110 },
    FnCase { contract: 1, name: "fun11", encode: e111, decode: d111, call: k111 },
    FnCase { contract: 1, name: "fun12", encode: e112, decode: d112, call: k112 },
    FnCase { contract: 1, name: "fun13", encode: e113, decode: d113, call: k113 },
    FnCase { contract: 1, name: "fun14", encode: e114, decode: d114, call: k114 },
    FnCase { contract: 1, name: "fun15", encode: e115, decode: d115, call: k115 },
    FnCase { contract: 1, name: "fun16", encode: e116, decode: d116, call: k116 },
    FnCase { contract: 1, name: "fun17", encode: e117, decode: d117, call: k117 },
    FnCase { contract: 1, name: "fun18", encode: e118, decode: d118, call: k118 },
    FnCase { contract: 1, name: "fun19", encode: e119, decode: d119, call: k119 },
    FnCase { contract: 1, name: "fun20", encode: e120, decode: d120, call: k120 },
    FnCase { contract: 1, name: "fun21", encode: e121, decode: d121, call: k121 },
    FnCase { contract: 1, name: "fun22", encode: e122, decode: d122, call: k122 },
    FnCase { contract: 1, name: "fun23", encode: e123, decode: d123, call: k123 },
    FnCase { contract: 1, name: "fun24", encode: e124, decode: d124, call: k124 },
    FnCase { contract: 1, name: "fun25", encode: e125, decode: d125, call: k125 },
    FnCase { contract: 1, name: "fun26", encode: e126, decode: d126, call: k126 },
    FnCase { contract: 1, name: "fun27", encode: e127, decode: d127, call: k127 },
    FnCase { contract: 1, name: "fun28", encode: e128, decode: d128, call: k128 },
    FnCase { contract: 1, name: "fun29", encode: e129, decode: d129, call: k129 },
    FnCase { contract: 1, name: "fun30", encode: e130, decode: d130, call: k130 },
    FnCase { contract: 1, name: "fun31", encode: e131, decode: d131, call: k131 },
    FnCase { contract: 1, name: "fun32", encode: e132, decode: d132, call: k132 },
    FnCase { contract: 1, name: "fun33", encode: e133, decode: d133, call: k133 },
    FnCase { contract: 1, name: "fun34", encode: e134, decode: d134, call: k134 },
    FnCase { contract: 1, name: "fun35", encode: e135, decode: d135, call: k135 },
    FnCase { contract: 2, name: "fun0", encode: e136, decode: d136, call: k136 },
    FnCase { contract: 2, name: "fun1", encode: e137, decode: d137, call: k137 },
    FnCase { contract: 2, name: "fun2", encode: e138, decode: d138, call: k138 },
    FnCase { contract: 2, name: "fun3", encode: e139, decode: d139, call: k139 },
    FnCase { contract: 2, name: "fun4", encode: e140, decode: d140, call: k140 },
    FnCase { contract: 2, name: "fun5", encode: e141, decode: d141, call: k141 },
    FnCase { contract: 2, name: "fun6", encode: e142, decode: d142, call: k142 },
    FnCase { contract: 2, name: "fun7", encode: e143, decode: d143, call: k143 },
    FnCase { contract: 2, name: "fun8", encode: e144, decode: d144, call: k144 },
    FnCase { contract: 2, name: "fun9", encode: e145, decode: d145, call: k145 },
    FnCase { contract: 2, name: "fun10", encode: e146, decode: d146, call: k146 },
    FnCase { contract: 2, name: "fun11", encode: e147, decode: d147, call: k147 },
    FnCase { contract: 2, name: "fun12", encode: e148, decode: d148, call: k148 },
    FnCase { contract: 2, name: "fun13", encode: e149, decode: d149, call: k149 },
    FnCase { contract: 2, name: "fun14", encode: e150, decode: d150, call: k150 },
    FnCase { contract: 2, name: "fun15", encode: e151, decode: d151, call: k151 },
    FnCase { contract: 2, name: "fun16", encode: e152, decode: d152, call: k152 },
    FnCase { contract: 2, name: "fun17", encode: e153, decode: d153, call: k153 },
    FnCase { contract: 2, name: "fun18", encode: e154, decode: d154, call: k154 },
    FnCase { contract: 2, name: "fun19", encode: e155, decode: d155, call: k155 },
    FnCase { contract: 2, name: "fun20", encode: e156, decode: d156, call: k156 },
    FnCase { contract: 2, name: "fun21", encode: e157, decode: d157, call: k157 },
    FnCase { contract: 2, name: "fun22", encode: e158, decode: d158, call: k158 },
    FnCase { contract: 2, name: "fun23", encode: e159, decode: d159, call: k159 },
    FnCase { contract: 2, name: "fun24", encode: e160, decode: d160, call: k160 },
    FnCase { contract: 2, name: "fun25", encode: e161, decode: d161, call: k161 },
    FnCase { contract: 2, name: "fun26", encode: e162, decode: d162, call: k162 },
    FnCase { contract: 2, name: "fun27", encode: e163, decode: d163, call: k163 },
    FnCase { contract: 2, name: "fun28", encode: e164, decode: d164, call: k164 },
    FnCase { contract: 2, name: "fun29", encode: e165, decode: d165, call: k165 },
    FnCase { contract: 2, name: "fun30", encode: e166, decode: d166, call: k166 },
    FnCase { contract: 2, name: "fun31", encode: e167, decode: d167, call: k167 },
    FnCase { contract: 2, name: "fun32", encode: e168, decode: d168, call: k168 },
    FnCase { contract: 2, name: "fun33", encode: e169, decode: d169, call: k169 },
    FnCase { contract: 2, name: "fun34", encode: e170, decode: d170, call: k170 },
    FnCase { contract: 2, name: "fun35", encode: e171, decode: d171, call: k171 },
    FnCase { contract: 2, name: "fun36", encode: e172, decode: d172, call: k172 },
    FnCase { contract: 2, name: "fun37", encode: e173, decode: d173, call: k173 },
    FnCase { contract: 2, name: "fun38", encode: e174, decode: d174, call: k174 },
    FnCase { contract: 2, name: "fun39", encode: e175, decode: d175, call: k175 },
    FnCase { contract: 2, name: "fun40", encode: e176, decode: d176, call: k176 },
    FnCase { contract: 2, name: "fun41", encode: e177, decode: d177, call: k177 },
    FnCase { contract: 2, name: "fun42", encode: e178, decode: d178, call: k178 },
    FnCase { contract: 2, name: "fun43", encode: e179, decode: d179, call: k179 },
    FnCase { contract: 2, name: "fun44", encode: e180, decode: d180, call: k180 },
    FnCase { contract: 2, name: "fun45", encode: e181, decode: d181, call: k181 },
    FnCase { contract: 2, name: "fun46", encode: e182, decode: d182, call: k182 },
    FnCase { contract: 2, name: "fun47", encode: e183, decode: d183, call: k183 },
    FnCase { contract: 2, name: "fun48", encode: e184, decode: d184, call: k184 },
    FnCase { contract: 2, name: "fun49", encode: e185, decode: d185, call: k185 },
    FnCase { contract: 2, name: "fun50", encode: e186, decode: d186, call: k186 },
    FnCase { contract: 2, name: "fun51", encode: e187, decode: d187, call: k187 },
    FnCase { contract: 2, name: "fun52", encode: e188, decode: d188, call: k188 },
    FnCase { contract: 2, name: "fun53", encode: e189, decode: d189, call: k189 },
    FnCase { contract: 3, name: "fun0", encode: e190, decode: d190, call: k190 },
    FnCase { contract: 3, name: "fun1", encode: e191, decode: d191, call: k191 },
    FnCase { contract: 3, name: "fun2", encode: e192, decode: d192, call: k192 },
    FnCase { contract: 3, name: "fun3", encode: e193, decode: d193, call: k193 },
    FnCase { contract: 3, name: "fun4", encode: e194, decode: d194, call: k194 },
    FnCase { contract: 3, name: "fun5", encode: e195, decode: d195, call: k195 },
    FnCase { contract: 3, name: "fun6", encode: e196, decode: d196, call: k196 },
    FnCase { contract: 3, name: "fun7", encode: e197, decode: d197, call: k197 },
    FnCase { contract: 3, name: "fun8", encode: e198, decode: d198, call: k198 },
    FnCase { contract: 3, name: "fun9", encode: e199, decode: d199, call: k199 },
    FnCase { contract: 3, name: "fun10", encode: e200, decode: d200, call: k200 },
    FnCase { contract: 3, name: "fun11", encode: e201, decode: d201, call: k201 },
    FnCase { contract: 3, name: "fun12", encode: e202, decode: d202, call: k202 },
    FnCase { contract: 3, name: "fun13", encode: e203, decode: d203, call: k203 },
    FnCase { contract: 3, name: "fun14", encode: e204, decode: d204, call: k204 },
    FnCase { contract: 3, name: "fun15", encode: e205, decode: d205, call: k205 },
    FnCase { contract: 3, name: "fun16", encode: e206, decode: d206, call: k206 },
    FnCase { contract: 3, name: "fun17", encode: e207, decode: d207, call: k207 },
    FnCase { contract: 3, name: "fun18", encode: e208, decode: d208, call: k208 },
    FnCase { contract: 3, name: "fun19", encode: e209, decode: d209, call: k209 },
    FnCase { contract: 3, name: "fun20", encode: e210, decode: d210, call: k210 },
    FnCase { contract: 3, name: "fun21", encode: e211, decode: d211, call: k211 },
    FnCase { contract: 3, name: "fun22", encode: e212, decode: d212, call: k212 },
    FnCase { contract: 3, name: "fun23", encode: e213, decode: d213, call: k213 },
    FnCase { contract: 3, name: "fun24", encode: e214, decode: d214, call: k214 },
    FnCase { contract: 3, name: "fun25", encode: e215, decode: d215, call: k215 },
    FnCase { contract: 3, name: "fun26", encode: e216, decode: d216, call: k216 },
    FnCase { contract: 3, name: "fun27", encode: e217, decode: d217, call: k217 },
    FnCase { contract: 3, name: "fun28", encode: e218, decode: d218, call: k218 },
    FnCase { contract: 3, name: "fun29", encode: e219, decode: d219, call: k219 },
    FnCase { contract: 3, name: "fun30", encode: e220, decode: d220, call: k220 },
    FnCase { contract: 3, name: "fun31", encode: e221, decode: d221, call: k221 },
    FnCase { contract: 3, name: "fun32", encode: e222, decode: d222, call: k222 },
    FnCase { contract: 3, name: "fun33", encode: e223, decode: d223, call: k223 },
    FnCase { contract: 4, name: "fun0", encode: e224, decode: d224, call: k224 },
    FnCase { contract: 4, name: "fun1", encode: e225, decode: d225, call: k225 },
    FnCase { contract: 4, name: "fun2", encode: e226, decode: d226, call: k226 },
    FnCase { contract: 4, name: "fun3", encode: e227, decode: d227, call: k227 },
    FnCase { contract: 4, name: "fun4", encode: e228, decode: d228, call: k228 },
    FnCase { contract: 4, name: "fun5", encode: e229, decode: d229, call: k229 },
    FnCase { contract: 4, name: "fun6", encode: e230, decode: d230, call: k230 },
    FnCase { contract: 4, name: "fun7", encode: e231, decode: d231, call: k231 },
    FnCase { contract: 4, name: "fun8", encode: e232, decode: d232, call: k232 },
    FnCase { contract: 4, name: "fun9", encode: e233, decode: d233, call: k233 },
    FnCase { contract: 4, name: "fun10", encode: e234, decode: d234, call: k234 },
    FnCase { contract: 4, name: "fun11", encode: e235, decode: d235, call: k235 },
    FnCase { contract: 4, name: "fun12", encode: e236, decode: d236, call: k236 },
    FnCase { contract: 4, name: "fun13", encode: e237, decode: d237, call: k237 },
    FnCase { contract: 4, name: "fun14", encode: e238, decode: d238, call: k238 },
    FnCase { contract: 4, name: "fun15", encode: e239, decode: d239, call: k239 },
    FnCase { contract: 4, name: "fun16", encode: e240, decode: d240, call: k240 },
    FnCase { contract: 4, name: "fun17", encode: e241, decode: d241, call: k241 },
    FnCase { contract: 4, name: "fun18", encode: e242, decode: d242, call: k242 },
    FnCase { contract: 4, name: "fun19", encode: e243, decode: d243, call: k243 },
    FnCase { contract: 4, name: "fun20", encode: e244, decode: d244, call: k244 },
    FnCase { contract: 4, name: "fun21", encode: e245, decode: d245, call: k245 },
    FnCase { contract: 4, name: "fun22", encode: e246, decode: d246, call: k246 },
    FnCase { contract: 4, name: "fun23", encode: e247, decode: d247, call: k247 },
    FnCase { contract: 4, name: "fun24", encode: e248, decode: d248, call: k248 },
    FnCase { contract: 4, name: "fun25", encode: e249, decode: d249, call: k249 },
    FnCase { contract: 4, name: "fun26", encode: e250, decode: d250, call: k250 },
    FnCase { contract: 4, name: "fun27", encode: e251, decode: d251, call: k251 },
    FnCase { contract: 4, name: "fun28", encode: e252, decode: d252, call: k252 },
    FnCase { contract: 4, name: "fun29", encode: e253, decode: d253, call: k253 },
    FnCase { contract: 4, name: "fun30", encode: e254, decode: d254, call: k254 },
    FnCase { contract: 4, name: "fun31", encode: e255, decode: d255, call: k255 },
    FnCase { contract: 4, name: "fun32", encode: e256, decode: d256, call: k256 },
    FnCase { contract: 4, name: "fun33", encode: e257, decode: d257, call: k257 },
    FnCase { contract: 4, name: "fun34", encode: e258, decode: d258, call: k258 },
    FnCase { contract: 4, name: "fun35", encode: e259, decode: d259, call: k259 },
    FnCase { contract: 4, name: "fun36", encode: e260, decode: d260, call: k260 },
    FnCase { contract: 4, name: "fun37", encode: e261, decode: d261, call: k261 },
    FnCase { contract: 4, name: "fun38", encode: e262, decode: d262, call: k262 },
    FnCase { contract: 4, name: "fun39", encode: e263, decode: d263, call: k263 },
    FnCase { contract: 4, name: "fun40", encode: e264, decode: d264, call: k264 },
    FnCase { contract: 4, name: "fun41", encode: e265, decode: d265, call: k265 },
    FnCase { contract: 4, name: "fun42", encode: e266, decode: d266, call: k266 },
    FnCase { contract: 4, name: "fun43", encode: e267, decode: d267, call: k267 },
    FnCase { contract: 4, name: "fun44", encode: e268, decode: d268, call: k268 },
    FnCase { contract: 4, name: "fun45", encode: e269, decode: d269, call: k269 },
    FnCase { contract: 4, name: "fun46", encode: e270, decode: d270, call: k270 },
    FnCase { contract: 4, name: "fun47", encode: e271, decode: d271, call: k271 },
    FnCase { contract: 4, name: "fun48", encode: e272, decode: d272, call: k272 },
    FnCase { contract: 4, name: "fun49", encode: e273, decode: d273, call: k273 },
    FnCase { contract: 4, name: "fun50", encode: e274, decode: d274, call: k274 },
    FnCase { contract: 4, name: "fun51", encode: e275, decode: d275, call: k275 },
    FnCase { contract: 4, name: "fun52", encode: e276, decode: d276, call: k276 },
    FnCase { contract: 4, name: "fun53", encode: e277, decode: d277, call: k277 },
    FnCase { contract: 4, name: "fun54", encode: e278, decode: d278, call: k278 },
    FnCase { contract: 4, name: "fun55", encode: e279, decode: d279, call: k279 },
    FnCase { contract: 4, name: "fun56", encode: e280, decode: d280, call: k280 },
    FnCase { contract: 4, name: "fun57", encode: e281, decode: d281, call: k281 },
    FnCase { contract: 4, name: "fun58", encode: e282, decode: d282, call: k282 },
    FnCase { contract: 4, name: "fun59", encode: e283, decode: d283, call: k283 },
    FnCase { contract: 4, name: "fun60", encode: e284, decode: d284, call: k284 },
    FnCase { contract: 4, name: "fun61", encode: e285, decode: d285, call: k285 },
    FnCase { contract: 4, name: "fun62", encode: e286, decode: d286, call: k286 },
    FnCase { contract: 4, name: "fun63", encode: e287, decode: d287, call: k287 },
    FnCase { contract: 4, name: "fun64", encode: e288, decode: d288, call: k288 },
    FnCase { contract: 4, name: "fun65", encode: e289, decode: d289, call: k289 },
    FnCase { contract: 4, name: "fun66", encode: e290, decode: d290, call: k290 },
    FnCase { contract: 4, name: "fun67", encode: e291, decode: d291, call: k291 },
    FnCase { contract: 4, name: "fun68", encode: e292, decode: d292, call: k292 },
    FnCase { contract: 4, name: "fun69", encode: e293, decode: d293, call: k293 },
    FnCase { contract: 4, name: "fun70", encode: e294, decode: d294, call: k294 },
    FnCase { contract: 4, name: "fun71", encode: e295, decode: d295, call: k295 },
    FnCase { contract: 4, name: "fun72", encode: e296, decode: d296, call: k296 },
    FnCase { contract: 4, name: "fun73", encode: e297, decode: d297, call: k297 },
    FnCase { contract: 4, name: "fun74", encode: e298, decode: d298, call: k298 },
    FnCase { contract: 4, name: "fun75", encode: e299, decode: d299, call: k299 },
    FnCase { contract: 4, name: "fun76", encode: e300, decode: d300, call: k300 },
    FnCase { contract: 4, name: "fun77", encode: e301, decode: d301, call: k301 },
    FnCase { contract: 4, name: "fun78", encode: e302, decode: d302, call: k302 },
    FnCase { contract: 4, name: "fun79", encode: e303, decode: d303, call: k303 },
    FnCase { contract: 4, name: "fun80", encode: e304, decode: d304, call: k304 },
    FnCase { contract: 4, name: "fun81", encode: e305, decode: d305, call: k305 },
    FnCase { contract: 4, name: "fun82", encode: e306, decode: d306, call: k306 },
    FnCase { contract: 4, name: "fun83", encode: e307, decode: d307, call: k307 },
    FnCase { contract: 4, name: "fun84", encode: e308, decode: d308, call: k308 },
    FnCase { contract: 4, name: "fun85", encode: e309, decode: d309, call: k309 },
    FnCase { contract: 4, name: "fun86", encode: e310, decode: d310, call: k310 },
    FnCase { contract: 4, name: "fun87", encode: e311, decode: d311, call: k311 },
    FnCase { contract: 4, name: "fun88", encode: e312, decode: d312, call: k312 },
    FnCase { contract: 4, name: "fun89", encode: e313, decode: d313, call: k313 },
    FnCase { contract: 4, name: "fun90", encode: e314, decode: d314, call: k314 },
    FnCase { contract: 4, name: "fun91", encode: e315, decode: d315, call: k315 },
    FnCase { contract: 4, name: "fun92", encode: e316, decode: d316, call: k316 },
    FnCase { contract: 4, name: "fun93", encode: e317, decode: d317, call: k317 },
    FnCase { contract: 4, name: "fun94", encode: e318, decode: d318, call: k318 },
    FnCase { contract: 4, name: "fun95", encode: e319, decode: d319, call: k319 },
    FnCase { contract: 4, name: "fun96", encode: e320, decode: d320, call: k320 },
    FnCase { contract: 4, name: "fun97", encode: e321, decode: d321, call: k321 },
    FnCase { contract: 4, name: "fun98", encode: e322, decode: d322, call: k322 },
    FnCase { contract: 4, name: "fun99", encode: e323, decode: d323, call: k323 },
    FnCase { contract: 5, name: "fun0", encode: e324, decode: d324, call: k324 },
    FnCase { contract: 5, name: "fun1", encode: e325, decode: d325, call: k325 },
    FnCase { contract: 5, name: "fun2", encode: e326, decode: d326, call: k326 },
    FnCase { contract: 5, name: "fun3", encode: e327, decode: d327, call: k327 },
    FnCase { contract: 5, name: "fun4", encode: e328, decode: d328, call: k328 },
    FnCase { contract: 5, name: "fun5", encode: e329, decode: d329, call: k329 },
    FnCase { contract: 5, name: "fun6", encode: e330, decode: d330, call: k330 },
    FnCase { contract: 5, name: "fun7", encode: e331, decode: d331, call: k331 },
    FnCase { contract: 5, name: "fun8", encode: e332, decode: d332, call: k332 },
    FnCase { contract: 5, name: "fun9", encode: e333, decode: d333, call: k333 },
    FnCase { contract: 5, name: "fun10", encode: e334, decode: d334, call: k334 },
    FnCase { contract: 5, name: "fun11", encode: e335, decode: d335, call: k335 },
    FnCase { contract: 5, name: "fun12", encode: e336, decode: d336, call: k336 },
    FnCase { contract: 5, name: "fun13", encode: e337, decode: d337, call: k337 },
    FnCase { contract: 5, name: "fun14", encode: e338, decode: d338, call: k338 },
    FnCase { contract: 5, name: "fun15", encode: e339, decode: d339, call: k339 },
    FnCase { contract: 5, name: "fun16", encode: e340, decode: d340, call: k340 },
    FnCase { contract: 5, name: "fun17", encode: e341, decode: d341, call: k341 },
    FnCase { contract: 5, name: "fun18", encode: e342, decode: d342, call: k342 },
    FnCase { contract: 5, name: "fun19", encode: e343, decode: d343, call: k343 },
    FnCase { contract: 5, name: "fun20", encode: e344, decode: d344, call: k344 },
    FnCase { contract: 5, name: "fun21", encode: e345, decode: d345, call: k345 },
    FnCase { contract: 5, name: "fun22", encode: e346, decode: d346, call: k346 },
    FnCase { contract: 5, name: "fun23", encode: e347, decode: d347, call: k347 },
    FnCase { contract: 5, name: "fun24", encode: e348, decode: d348, call: k348 },
    FnCase { contract: 5, name: "fun25", encode: e349, decode: d349, call: k349 },
    FnCase { contract: 5, name: "fun26", encode: e350, decode: d350, call: k350 },
    FnCase { contract: 5, name: "fun27", encode: e351, decode: d351, call: k351 },
    FnCase { contract: 5, name: "fun28", encode: e352, decode: d352, call: k352 },
    FnCase { contract: 5, name: "fun29", encode: e353, decode: d353, call: k353 },
    FnCase { contract: 5, name: "fun30", encode: e354, decode: d354, call: k354 },
    FnCase { contract: 5, name: "fun31", encode: e355, decode: d355, call: k355 },
    FnCase { contract: 5, name: "fun32", encode: e356, decode: d356, call: k356 },
    FnCase { contract: 5, name: "fun33", encode: e357, decode: d357, call: k357 },
    FnCase { contract: 5, name: "fun34", encode: e358, decode: d358, call: k358 },
    FnCase { contract: 5, name: "fun35", encode: e359, decode: d359, call: k359 },
    FnCase { contract: 5, name: "fun36", encode: e360, decode: d360, call: k360 },
    FnCase { contract: 5, name: "fun37", encode: e361, decode: d361, call: k361 },
    FnCase { contract: 5, name: "fun38", encode: e362, decode: d362, call: k362 },
    FnCase { contract: 5, name: "fun39", encode: e363, decode: d363, call: k363 },
    FnCase { contract: 5, name: "fun40", encode: e364, decode: d364, call: k364 },
    FnCase { contract: 5, name: "fun41", encode: e365, decode: d365, call: k365 },
    FnCase { contract: 5, name: "fun42", encode: e366, decode: d366, call: k366 },
    FnCase { contract: 5, name: "fun43", encode: e367, decode: d367, call: k367 },
    FnCase { contract: 5, name: "fun44", encode: e368, decode: d368, call: k368 },
    FnCase { contract: 5, name: "fun45", encode: e369, decode: d369, call: k369 },
    FnCase { contract: 5, name: "fun46", encode: e370, decode: d370, call: k370 },
    FnCase { contract: 5, name: "fun47", encode: e371, decode: d371, call: k371 },
    FnCase { contract: 5, name: "fun48", encode: e372, decode: d372, call: k372 },
    FnCase { contract: 5, name: "fun49", encode: e373, decode: d373, call: k373 },
    FnCase { contract: 5, name: "fun50", encode: e374, decode: d374, call: k374 },
    FnCase { contract: 5, name: "fun51", encode: e375, decode: d375, call: k375 },
    FnCase { contract: 5, name: "fun52", encode: e376, decode: d376, call: k376 },
    FnCase { contract: 5, name: "fun53", encode: e377, decode: d377, call: k377 },
    FnCase { contract: 5, name: "fun54", encode: e378, decode: d378, call: k378 },
    FnCase { contract: 5, name: "fun55", encode: e379, decode: d379, call: k379 },
    FnCase { contract: 5, name: "fun56", encode: e380, decode: d380, call: k380 },
    FnCase { contract: 5, name: "fun57", encode: e381, decode: d381, call: k381 },
    FnCase { contract: 5, name: "fun58", encode: e382, decode: d382, call: k382 },
    FnCase { contract: 5, name: "fun59", encode: e383, decode: d383, call: k383 },
    FnCase { contract: 5, name: "fun60", encode: e384, decode: d384, call: k384 },
    FnCase { contract: 5, name: "fun61", encode: e385, decode: d385, call: k385 },
    FnCase { contract: 5, name: "fun62", encode: e386, decode: d386, call: k386 },
    FnCase { contract: 5, name: "fun63", encode: e387, decode: d387, call: k387 },
    FnCase { contract: 6, name: "fun0", encode: e388, decode: d388, call: k388 },
    FnCase { contract: 6, name: "fun1", encode: e389, decode: d389, call: k389 },
    FnCase { contract: 6, name: "fun2", encode: e390, decode: d390, call: k390 },
    FnCase { contract: 6, name: "fun3", encode: e391, decode: d391, call: k391 },
    FnCase { contract: 6, name: "fun4", encode: e392, decode: d392, call: k392 },
    FnCase { contract: 6, name: "fun5", encode: e393, decode: d393, call: k393 },
    FnCase { contract: 6, name: "transferFrom", encode: e394, decode: d394, call: k394 },
    FnCase { contract: 6, name: "noNames", encode: e395, decode: d395, call: k395 },
    FnCase { contract: 6, name: "mixedNames", encode: e396, decode: d396, call: k396 },
    FnCase { contract: 6, name: "Upper_Case_Name", encode: e397, decode: d397, call: k397 },
    FnCase { contract: 6, name: "setURL2", encode: e398, decode: d398, call: k398 },
    FnCase { contract: 6, name: "snake_case_name", encode: e399, decode: d399, call: k399 },
    FnCase { contract: 7, name: "fun0", encode: e400, decode: d400, call: k400 },
    FnCase { contract: 7, name: "fun1", encode: e401, decode: d401, call: k401 },
    FnCase { contract: 7, name: "fun2", encode: e402, decode: d402, call: k402 },
    FnCase { contract: 7, name: "fun3", encode: e403, decode: d403, call: k403 },
    FnCase { contract: 7, name: "fun4", encode: e404, decode: d404, call: k404 },
    FnCase { contract: 7, name: "fun5", encode: e405, decode: d405, call: k405 },
    FnCase { contract: 7, name: "fun6", encode: e406, decode: d406, call: k406 },
    FnCase { contract: 7, name: "fun7", encode: e407, decode: d407, call: k407 },
    FnCase { contract: 7, name: "fun8", encode: e408, decode: d408, call: k408 },
    FnCase { contract: 7, name: "fun9", encode: e409, decode: d409, call: k409 },
    FnCase { contract: 7, name: "fun10", encode: e410, decode: d410, call: k410 },
    FnCase { contract: 7, name: "fun11", encode: e411, decode: d411, call: k411 },
    FnCase { contract: 7, name: "fun12", encode: e412, decode: d412, call: k412 },
    FnCase { contract: 7, name: "fun13", encode: e413, decode: d413, call: k413 },
    FnCase { contract: 7, name: "fun14", encode: e414, decode: d414, call: k414 },
    FnCase { contract: 7, name: "fun15", encode: e415, decode: d415, call: k415 },
    FnCase { contract: 7, name: "fun16", encode: e416, decode: d416, call: k416 },
    FnCase { contract: 7, name: "fun17", encode: e417, decode: d417, call: k417 },
    FnCase { contract: 7, name: "fun18", encode: e418, decode: d418, call: k418 },
    FnCase { contract: 7, name: "fun19", encode: e419, decode: d419, call: k419 },
    FnCase { contract: 7, name: "fun20", encode: e420, decode: d420, call: k420 },
    FnCase { contract: 7, name: "fun21", encode: e421, decode: d421, call: k421 },
    FnCase { contract: 7, name: "fun22", encode: e422, decode: d422, call: k422 },
    FnCase { contract: 7, name: "fun23", encode: e423, decode: d423, call: k423 },
    FnCase { contract: 7, name: "fun24", encode: e424, decode: d424, call: k424 },
    FnCase { contract: 7, name: "fun25", encode: e425, decode: d425, call: k425 },
    FnCase { contract: 7, name: "fun26", encode: e426, decode: d426, call: k426 },
    FnCase { contract: 7, name: "fun27", encode: e427, decode: d427, call: k427 },
    FnCase { contract: 7, name: "fun28", encode: e428, decode: d428, call: k428 },
    FnCase { contract: 7, name: "fun29", encode: e429, decode: d429, call: k429 },
    FnCase { contract: 7, name: "fun30", encode: e430, decode: d430, call: k430 },
    FnCase { contract: 7, name: "fun31", encode: e431, decode: d431, call: k431 },
    FnCase { contract: 7, name: "fun32", encode: e432, decode: d432, call: k432 },
    FnCase { contract: 7, name: "fun33", encode: e433, decode: d433, call: k433 },
    FnCase { contract: 7, name: "fun34", encode: e434, decode: d434, call: k434 },
    FnCase { contract: 7, name: "fun35", encode: e435, decode: d435, call: k435 },
    FnCase { contract: 7, name: "fun36", encode: e436, decode: d436, call: k436 },
    FnCase { contract: 7, name: "fun37", encode: e437, decode: d437, call: k437 },
    FnCase { contract: 7, name: "fun38", encode: e438, decode: d438, call: k438 },
    FnCase { contract: 7, name: "fun39", encode: e439, decode: d439, call: k439 },
    FnCase { contract: 7, name: "fun40", encode: e440, decode: d440, call: k440 },
    FnCase { contract: 7, name: "fun41", encode: e441, decode: d441, call: k441 },
    FnCase { contract: 7, name: "fun42", encode: e442, decode: d442, call: k442 },
    FnCase { contract: 7, name: "fun43", encode: e443, decode: d443, call: k443 },
    FnCase { contract: 7, name: "fun44", encode: e444, decode: d444, call: k444 },
    FnCase { contract: 7, name: "fun45", encode: e445, decode: d445, call: k445 },
    FnCase { contract: 7, name: "fun46", encode: e446, decode: d446, call: k446 },
    FnCase { contract: 7, name: "fun47", encode: e447, decode: d447, call: k447 },
    FnCase { contract: 7, name: "fun48", encode: e448, decode: d448, call: k448 },
    FnCase { contract: 7, name: "fun49", encode: e449, decode: d449, call: k449 },
    FnCase { contract: 7, name: "fun50", encode: e450, decode: d450, call: k450 },
    FnCase { contract: 7, name: "fun51", encode: e451, decode: d451, call: k451 },
    FnCase { contract: 7, name: "fun52", encode: e452, decode: d452, call: k452 },
    FnCase { contract: 7, name: "fun53", encode: e453, decode: d453, call: k453 },
    FnCase { contract: 7, name: "fun54", encode: e454, decode: d454, call: k454 },
    FnCase { contract: 7, name: "fun55", encode: e455, decode: d455, call: k455 },
    FnCase { contract: 7, name: "fun56", encode: e456, decode: d456, call: k456 },
    FnCase { contract: 7, name: "fun57", encode: e457, decode: d457, call: k457 },
    FnCase { contract: 7, name: "fun58", encode: e458, decode: d458, call: k458 },
    FnCase { contract: 7, name: "fun59", encode: e459, decode: d459, call: k459 },
    FnCase { contract: 7, name: "fun60", encode: e460, decode: d460, call: k460 },
    FnCase { contract: 7, name: "fun61", encode: e461, decode: d461, call: k461 },
    FnCase { contract: 7, name: "fun62", encode: e462, decode: d462, call: k462 },
    FnCase { contract: 7, name: "fun63", encode: e463, decode: d463, call: k463 },
    FnCase { contract: 7, name: "fun64", encode: e464, decode: d464, call: k464 },
    FnCase { contract: 7, name: "fun65", encode: e465, decode: d465, call: k465 },
    FnCase { contract: 7, name: "fun66", encode: e466, decode: d466, call: k466 },
    FnCase { contract: 7, name: "fun67", encode: e467, decode: d467, call: k467 },
    FnCase { contract: 7, name: "fun68", encode: e468, decode: d468, call: k468 },
    FnCase { contract: 7, name: "fun69", encode: e469, decode: d469, call: k469 },
    FnCase { contract: 7, name: "fun70", encode: e470, decode: d470, call: k470 },
    FnCase { contract: 7, name: "fun71", encode: e471, decode: d471, call: k471 },
    FnCase { contract: 7, name: "fun72", encode: e472, decode: d472, call: k472 },
    FnCase { contract: 7, name: "fun73", encode: e473, decode: d473, call: k473 },
    FnCase { contract: 7, name: "fun74", encode: e474, decode: d474, call: k474 },
    FnCase { contract: 7, name: "fun75", encode: e475, decode: d475, call: k475 },
    FnCase { contract: 7, name: "fun76", encode: e476, decode: d476, call: k476 },
    FnCase { contract: 7, name: "fun77", encode: e477, decode: d477, call: k477 },
    FnCase { contract: 7, name: "fun78", encode: e478, decode: d478, call: k478 },
    FnCase { contract: 7, name: "fun79", encode: e479, decode: d479, call: k479 },
    FnCase { contract: 7, name: "fun80", encode: e480, decode: d480, call: k480 },
    FnCase { contract: 8, name: "fun0", encode: e481, decode: d481, call: k481 },
    FnCase { contract: 8, name: "fun1", encode: e482, decode: d482, call: k482 },
    FnCase { contract: 8, name: "fun2", encode: e483, decode: d483, call: k483 },
    FnCase { contract: 8, name: "fun3", encode: e484, decode: d484, call: k484 },
    FnCase { contract: 8, name: "fun4", encode: e485, decode: d485, call: k485 },
    FnCase { contract: 8, name: "fun5", encode: e486, decode: d486, call: k486 },
    FnCase { contract: 8, name: "fun6", encode: e487, decode: d487, call: k487 },
    FnCase { contract: 8, name: "fun7", encode: e488, decode: d488, call: k488 },
    FnCase { contract: 8, name: "fun8", encode: e489, decode: d489, call: k489 },
    FnCase { contract: 8, name: "fun9", encode: e490, decode: d490, call: k490 },
    FnCase { contract: 8, name: "fun10", encode: e491, decode: d491, call: k491 },
    FnCase { contract: 8, name: "fun11", encode: e492, decode: d492, call: k492 },
    FnCase { contract: 8, name: "fun12", encode: e493, decode: d493, call: k493 },
    FnCase { contract: 8, name: "fun13", encode: e494, decode: d494, call: k494 },
    FnCase { contract: 8, name: "fun14", encode: e495, decode: d495, call: k495 },
    FnCase { contract: 8, name: "fun15", encode: e496, decode: d496, call: k496 },
    FnCase { contract: 8, name: "fun16", encode: e497, decode: d497, call: k497 },
    FnCase { contract: 8, name: "fun17", encode: e498, decode: d498, call: k498 },
    FnCase { contract: 8, name: "fun18", encode: e499, decode: d499, call: k499 },
    FnCase { contract: 8, name: "fun19", encode: e500, decode: d500, call: k500 },
    FnCase { contract: 8, name: "fun20", encode: e501, decode: d501, call: k501 },
    FnCase { contract: 8, name: "fun21", encode: e502, decode: d502, call: k502 },
    FnCase { contract: 8, name: "fun22", encode: e503, decode: d503, call: k503 },
    FnCase { contract: 8, name: "fun23", encode: e504, decode: d504, call: k504 },
    FnCase { contract: 8, name: "fun24", encode: e505, decode: d505, call: k505 },
    FnCase { contract: 8, name: "fun25", encode: e506, decode: d506, call: k506 },
    FnCase { contract: 8, name: "fun26", encode: e507, decode: d507, call: k507 },
    FnCase { contract: 8, name: "fun27", encode: e508, decode: d508, call: k508 },
    FnCase { contract: 8, name: "fun28", encode: e509, decode: d509, call: k509 },
    FnCase { contract: 8, name: "fun29", encode: e510, decode: d510, call: k510 },
    FnCase { contract: 8, name: "fun30", encode: e511, decode: d511, call: k511 },
    FnCase { contract: 8, name: "fun31", encode: e512, decode: d512, call: k512 },
    FnCase { contract: 9, name: "fun0", encode: e513, decode: d513, call: k513 },
    FnCase { contract: 9, name: "fun1", encode: e514, decode: d514, call: k514 },
    FnCase { contract: 9, name: "fun2", encode: e515, decode: d515, call: k515 },
    FnCase { contract: 9, name: "fun3", encode: e516, decode: d516, call: k516 },
    FnCase { contract: 9, name: "fun4", encode: e517, decode: d517, call: k517 },
    FnCase { contract: 9, name: "fun5", encode: e518, decode: d518, call: k518 },
    FnCase { contract: 9, name: "fun6", encode: e519, decode: d519, call: k519 },
    FnCase { contract: 9, name: "fun7", encode: e520, decode: d520, call: k520 },
    FnCase { contract: 9, name: "fun8", encode: e521, decode: d521, call: k521 },
    FnCase { contract: 9, name: "fun9", encode: e522, decode: d522, call: k522 },
    FnCase { contract: 9, name: "fun10", encode: e523, decode: d523, call: k523 },
    FnCase { contract: 9, name: "fun11", encode: e524, decode: d524, call: k524 },
    FnCase { contract: 9, name: "fun12", encode: e525, decode: d525, call: k525 },
    FnCase { contract: 9, name: "fun13", encode: e526, decode: d526, call: k526 },
    FnCase { contract: 9, name: "fun14", encode: e527, decode: d527, call: k527 },
    FnCase { contract: 9, name: "fun15", encode: e528, decode: d528, call: k528 },
    FnCase { contract: 9, name: "fun16", encode: e529, decode: d529, call: k529 },
    FnCase { contract: 9, name: "fun17", encode: e530, decode: d530, call: k530 },
    FnCase { contract: 9, name: "fun18", encode: e531, decode: d531, call: k531 },
    FnCase { contract: 9, name: "fun19", encode: e532, decode: d532, call: k532 },
    FnCase { contract: 9, name: "fun20", encode: e533, decode: d533, call: k533 },
    FnCase { contract: 9, name: "fun21", encode: e534, decode: d534, call: k534 },
    FnCase { contract: 9, name: "fun22", encode: e535, decode: d535, call: k535 },
    FnCase { contract: 9, name: "fun23", encode: e536, decode: d536, call: k536 },
    FnCase { contract: 9, name: "fun24", encode: e537, decode: d537, call: k537 },
    FnCase { contract: 9, name: "fun25", encode: e538, decode: d538, call: k538 },
    FnCase { contract: 9, name: "fun26", encode: e539, decode: d539, call: k539 },
    FnCase { contract: 9, name: "fun27", encode: e540, decode: d540, call: k540 },
    FnCase { contract: 9, name: "fun28", encode: e541, decode: d541, call: k541 },
    FnCase { contract: 9, name: "fun29", encode: e542, decode: d542, call: k542 },
    FnCase { contract: 9, name: "fun30", encode: e543, decode: d543, call: k543 },
    FnCase { contract: 9, name: "fun31", encode: e544, decode: d544, call: k544 },
    FnCase { contract: 9, name: "fun32", encode: e545, decode: d545, call: k545 },
    FnCase { contract: 9, name: "fun33", encode: e546, decode: d546, call: k546 },
    FnCase { contract: 9, name: "fun34", encode: e547, decode: d547, call: k547 },
    FnCase { contract: 9, name: "fun35", encode: e548, decode: d548, call: k548 },
    FnCase { contract: 9, name: "fun36", encode: e549, decode: d549, call: k549 },
    FnCase { contract: 9, name: "fun37", encode: e550, decode: d550, call: k550 },
    FnCase { contract: 9, name: "fun38", encode: e551, decode: d551, call: k551 },
    FnCase { contract: 9, name: "fun39", encode: e552, decode: d552, call: k552 },
    FnCase { contract: 9, name: "fun40", encode: e553, decode: d553, call: k553 },
    FnCase { contract: 9, name: "fun41", encode: e554, decode: d554, call: k554 },
    FnCase { contract: 9, name: "fun42", encode: e555, decode: d555, call: k555 },
    FnCase { contract: 9, name: "fun43", encode: e556, decode: d556, call: k556 },
    FnCase { contract: 9, name: "fun44", encode: e557, decode: d557, call: k557 },
    FnCase { contract: 9, name: "fun45", encode: e558, decode: d558, call: k558 },
    FnCase { contract: 9, name: "fun46", encode: e559, decode: d559, call: k559 },
    FnCase { contract: 9, name: "fun47", encode: e560, decode: d560, call: k560 },
    FnCase { contract: 9, name: "fun48", encode: e561, decode: d561, call: k561 },
    FnCase { contract: 9, name: "fun49", encode: e562, decode: d562, call: k562 },
    FnCase { contract: 9, name: "fun50", encode: e563, decode: d563, call: k563 },
    FnCase { contract: 9, name: "fun51", encode: e564, decode: d564, call: k564 },
    FnCase { contract: 9, name: "fun52", encode: e565, decode: d565, call: k565 },
    FnCase { contract: 9, name: "fun53", encode: e566, decode: d566, call: k566 },
    FnCase { contract: 9, name: "fun54", encode: e567, decode: d567, call: k567 },
    FnCase { contract: 9, name: "fun55", encode: e568, decode: d568, call: k568 },
    FnCase { contract: 9, name: "fun56", encode: e569, decode: d569, call: k569 },
    FnCase { contract: 9, name: "fun57", encode: e570, decode: d570, call: k570 },
    FnCase { contract: 9, name: "fun58", encode: e571, decode: d571, call: k571 },
    FnCase { contract: 9, name: "fun59", encode: e572, decode: d572, call: k572 },
    FnCase { contract: 9, name: "fun60", encode: e573, decode: d573, call: k573 },
    FnCase { contract: 9, name: "fun61", encode: e574, decode: d574, call: k574 },
    FnCase { contract: 9, name: "fun62", encode: e575, decode: d575, call: k575 },
    FnCase { contract: 9, name: "fun63", encode: e576, decode: d576, call: k576 },
    FnCase { contract: 9, name: "fun64", encode: e577, decode: d577, call: k577 },
    FnCase { contract: 9, name: "fun65", encode: e578, decode: d578, call: k578 },
    FnCase { contract: 9, name: "fun66", encode: e579, decode: d579, call: k579 },
    FnCase { contract: 9, name: "fun67", encode: e580, decode: d580, call: k580 },
    FnCase { contract: 9, name: "fun68", encode: e581, decode: d581, call: k581 },
    FnCase { contract: 9, name: "fun69", encode: e582, decode: d582, call: k582 },
    FnCase { contract: 9, name: "fun70", encode: e583, decode: d583, call: k583 },
    FnCase { contract: 9, name: "fun71", encode: e584, decode: d584, call: k584 },
    FnCase { contract: 9, name: "fun72", encode: e585, decode: d585, call: k585 },
    FnCase { contract: 9, name: "fun73", encode: e586, decode: d586, call: k586 },
    FnCase { contract: 9, name: "fun74", encode: e587, decode: d587, call: k587 },
    FnCase { contract: 9, name: "fun75", encode: e588, decode: d588, call: k588 },
    FnCase { contract: 9, name: "fun76", encode: e589, decode: d589, call: k589 },
    FnCase { contract: 9, name: "fun77", encode: e590, decode: d590, call: k590 },
    FnCase { contract: 9, name: "fun78", encode: e591, decode: d591, call: k591 },
    FnCase { contract: 9, name: "fun79", encode: e592, decode: d592, call: k592 },
    FnCase { contract: 9, name: "fun80", encode: e593, decode: d593, call: k593 },
    FnCase { contract: 9, name: "fun81", encode: e594, decode: d594, call: k594 },
    FnCase { contract: 9, name: "fun82", encode: e595, decode: d595, call: k595 },
    FnCase { contract: 9, name: "fun83", encode: e596, decode: d596, call: k596 },
    FnCase { contract: 9, name: "fun84", encode: e597, decode: d597, call: k597 },
    FnCase { contract: 9, name: "fun85", encode: e598, decode: d598, call: k598 },
    FnCase { contract: 9, name: "fun86", encode: e599, decode: d599, call: k599 },
    FnCase { contract: 9, name: "fun87", encode: e600, decode: d600, call: k600 },
    FnCase { contract: 9, name: "fun88", encode: e601, decode: d601, call: k601 },
    FnCase { contract: 9, name: "fun89", encode: e602, decode: d602, call: k602 },
    FnCase { contract: 9, name: "fun90", encode: e603, decode: d603, call: k603 },
    FnCase { contract: 9, name: "fun91", encode: e604, decode: d604, call: k604 },
    FnCase { contract: 9, name: "fun92", encode: e605, decode: d605, call: k605 },
    FnCase { contract: 9, name: "fun93", encode: e606, decode: d606, call: k606 },
    FnCase { contract: 9, name: "fun94", encode: e607, decode: d607, call: k607 },
    FnCase { contract: 9, name: "fun95", encode: e608, decode: d608, call: k608 },
    FnCase { contract: 9, name: "fun96", encode: e609, decode: d609, call: k609 },
    FnCase { contract: 9, name: "fun97", encode: e610, decode: d610, call: k610 },
    FnCase { contract: 9, name: "fun98", encode: e611, decode: d611, call: k611 },
    FnCase { contract: 9, name: "fun99", encode: e612, decode: d612, call: k612 },
    FnCase { contract: 9, name: "fun100", encode: e613, decode: d613, call: k613 },
    FnCase { contract: 9, name: "fun101", encode: e614, decode: d614, call: k614 },
    FnCase { contract: 9, name: "fun102", encode: e615, decode: d615, call: k615 },
    FnCase { contract: 9, name: "fun103", encode: e616, decode: d616, call: k616 },
    FnCase { contract: 9, name: "fun104", encode: e617, decode: d617, call: k617 },
    FnCase { contract: 9, name: "fun105", encode: e618, decode: d618, call: k618 },
    FnCase { contract: 9, name: "fun106", encode: e619, decode: d619, call: k619 },
    FnCase { contract: 9, name: "fun107", encode: e620, decode: d620, call: k620 },
    FnCase { contract: 9, name: "fun108", encode: e621, decode: d621, call: k621 },
    FnCase { contract: 9, name: "fun109", encode: e622, decode: d622, call: k622 },
    FnCase { contract: 9, name: "fun110", encode: e623, decode: d623, call: k623 },
    FnCase { contract: 9, name: "fun111", encode: e624, decode: d624, call: k624 },
    FnCase { contract: 9, name: "fun112", encode: e625, decode: d625, call: k625 },
    FnCase { contract: 9, name: "fun113", encode: e626, decode: d626, call: k626 },
    FnCase { contract: 9, name: "fun114", encode: e627, decode: d627, call: k627 },
    FnCase { contract: 9, name: "fun115", encode: e628, decode: d628, call: k628 },
    FnCase { contract: 9, name: "fun116", encode: e629, decode: d629, call: k629 },
    FnCase { contract: 9, name: "fun117", encode: e630, decode: d630, call: k630 },
    FnCase { contract: 9, name: "fun118", encode: e631, decode: d631, call: k631 },
    FnCase { contract: 9, name: "fun119", encode: e632, decode: d632, call: k632 },
    FnCase { contract: 9, name: "fun120", encode: e633, decode: d633, call: k633 },
    FnCase { contract: 9, name: "fun121", encode: e634, decode: d634, call: k634 },
    FnCase { contract: 9, name: "fun122", encode: e635, decode: d635, call: k635 },
    FnCase { contract: 9, name: "fun123", encode: e636, decode: d636, call: k636 },
    FnCase { contract: 9, name: "fun124", encode: e637, decode: d637, call: k637 },
    FnCase { contract: 9, name: "fun125", encode: e638, decode: d638, call: k638 },
    FnCase { contract: 9, name: "fun126", encode: e639, decode: d639, call: k639 },
    FnCase { contract: 9, name: "fun127", encode: e640, decode: d640, call: k640 },
    FnCase { contract: 9, name: "fun128", encode: e641, decode: d641, call: k641 },
    FnCase { contract: 9, name: "fun129", encode: e642, decode: d642, call: k642 },
    FnCase { contract: 9, name: "fun130", encode: e643, decode: d643, call: k643 },
    FnCase { contract: 9, name: "fun131", encode: e644, decode: d644, call: k644 },
    FnCase { contract: 9, name: "fun132", encode: e645, decode: d645, call: k645 },
    FnCase { contract: 9, name: "fun133", encode: e646, decode: d646, call: k646 },
    FnCase { contract: 9, name: "fun134", encode: e647, decode: d647, call: k647 },
    FnCase { contract: 9, name: "fun135", encode: e648, decode: d648, call: k648 },
    FnCase { contract: 9, name: "fun136", encode: e649, decode: d649, call: k649 },
    FnCase { contract: 9, name: "fun137", encode: e650, decode: d650, call: k650 },
    FnCase { contract: 9, name: "fun138", encode: e651, decode: d651, call: k651 },
    FnCase { contract: 9, name: "fun139", encode: e652, decode: d652, call: k652 },
    FnCase { contract: 9, name: "fun140", encode: e653, decode: d653, call: k653 },
    FnCase { contract: 9, name: "fun141", encode: e654, decode: d654, call: k654 },
    FnCase { contract: 9, name: "fun142", encode: e655, decode: d655, call: k655 },
    FnCase { contract: 9, name: "fun143", encode: e656, decode: d656, call: k656 },
    FnCase { contract: 10, name: "fun0", encode: e657, decode: d657, call: k657 },
    FnCase { contract: 10, name: "fun1", encode: e658, decode: d658, call: k658 },
    FnCase { contract: 10, name: "fun2", encode: e659, decode: d659, call: k659 },
    FnCase { contract: 10, name: "fun3", encode: e660, decode: d660, call: k660 },
    FnCase { contract: 10, name: "fun4", encode: e661, decode: d661, call: k661 },
    FnCase { contract: 10, name: "fun5", encode: e662, decode: d662, call: k662 },
    FnCase { contract: 10, name: "fun6", encode: e663, decode: d663, call: k663 },
    FnCase { contract: 10, name: "fun7", encode: e664, decode: d664, call: k664 },
    FnCase { contract: 10, name: "fun8", encode: e665, decode: d665, call: k665 },
    FnCase { contract: 10, name: "fun9", encode: e666, decode: d666, call: k666 },
    FnCase { contract: 10, name: "fun10", encode: e667, decode: d667, call: k667 },
    FnCase { contract: 10, name: "fun11", encode: e668, decode: d668, call: k668 },
    FnCase { contract: 10, name: "fun12", encode: e669, decode: d669, call: k669 },
    FnCase { contract: 10, name: "fun13", encode: e670, decode: d670, call: k670 },
    FnCase { contract: 10, name: "fun14", encode: e671, decode: d671, call: k671 },
    FnCase { contract: 10, name: "fun15", encode: e672, decode: d672, call: k672 },
    FnCase { contract: 10, name: "fun16", encode: e673, decode: d673, call: k673 },
    FnCase { contract: 10, name: "fun17", encode: e674, decode: d674, call: k674 },
    FnCase { contract: 10, name: "fun18", encode: e675, decode: d675, call: k675 },
    FnCase { contract: 10, name: "fun19", encode: e676, decode: d676, call: k676 },
    FnCase { contract: 10, name: "fun20", encode: e677, decode: d677, call: k677 },
    FnCase { contract: 10, name: "fun21", encode: e678, decode: d678, call: k678 },
    FnCase { contract: 10, name: "fun22", encode: e679, decode: d679, call: k679 },
    FnCase { contract: 10, name: "fun23", encode: e680, decode: d680, call: k680 },
    FnCase { contract: 10, name: "fun24", encode: e681, decode: d681, call: k681 },
    FnCase { contract: 10, name: "fun25", encode: e682, decode: d682, call: k682 },
    FnCase { contract: 10, name: "fun26", encode: e683, decode: d683, call: k683 },
    FnCase { contract: 10, name: "fun27", encode: e684, decode: d684, call: k684 },
    FnCase { contract: 10, name: "fun28", encode: e685, decode: d685, call: k685 },
    FnCase { contract: 10, name: "fun29", encode: e686, decode: d686, call: k686 },
    FnCase { contract: 10, name: "fun30", encode: e687, decode: d687, call: k687 },
    FnCase { contract: 10, name: "fun31", encode: e688, decode: d688, call: k688 },
    FnCase { contract: 10, name: "fun32", encode: e689, decode: d689, call: k689 },
    FnCase { contract: 10, name: "fun33", encode: e690, decode: d690, call: k690 },
    FnCase { contract: 10, name: "fun34", encode: e691, decode: d691, call: k691 },
    FnCase { contract: 10, name: "fun35", encode: e692, decode: d692, call: k692 },
    FnCase { contract: 10, name: "fun36", encode: e693, decode: d693, call: k693 },
    FnCase { contract: 10, name: "fun37", encode: e694, decode: d694, call: k694 },
    FnCase { contract: 10, name: "fun38", encode: e695, decode: d695, call: k695 },
    FnCase { contract: 10, name: "fun39", encode: e696, decode: d696, call: k696 },
    FnCase { contract: 10, name: "fun40", encode: e697, decode: d697, call: k697 },
    FnCase { contract: 10, name: "fun41", encode: e698, decode: d698, call: k698 },
    FnCase { contract: 10, name: "fun42", encode: e699, decode: d699, call: k699 },
    FnCase { contract: 10, name: "fun43", encode: e700, decode: d700, call: k700 },
    FnCase { contract: 10, name: "fun44", encode: e701, decode: d701, call: k701 },
    FnCase { contract: 10, name: "fun45", encode: e702, decode: d702, call: k702 },
    FnCase { contract: 10, name: "fun46", encode: e703, decode: d703, call: k703 },
    FnCase { contract: 10, name: "fun47", encode: e704, decode: d704, call: k704 },
    FnCase { contract: 10, name: "fun48", encode: e705, decode: d705, call: k705 },
    FnCase { contract: 10, name: "fun49", encode: e706, decode: d706, call: k706 },
    FnCase { contract: 10, name: "fun50", encode: e707, decode: d707, call: k707 },
    FnCase { contract: 10, name: "fun51", encode: e708, decode: d708, call: k708 },
    FnCase { contract: 10, name: "fun52", encode: e709, decode: d709, call: k709 },
    FnCase { contract: 10, name: "fun53", encode: e710, decode: d710, call: k710 },
    FnCase { contract: 10, name: "fun54", encode: e711, decode: d711, call: k711 },
    FnCase { contract: 10, name: "fun55", encode: e712, decode: d712, call: k712 },
    FnCase { contract: 10, name: "fun56", encode: e713, decode: d713, call: k713 },
    FnCase { contract: 10, name: "fun57", encode: e714, decode: d714, call: k714 },
    FnCase { contract: 10, name: "fun58", encode: e715, decode: d715, call: k715 },
    FnCase { contract: 10, name: "fun59", encode: e716, decode: d716, call: k716 },
    FnCase { contract: 10, name: "fun60", encode: e717, decode: d717, call: k717 },
    FnCase { contract: 10, name: "fun61", encode: e718, decode: d718, call: k718 },
    FnCase { contract: 10, name: "fun62", encode: e719, decode: d719, call: k719 },
    FnCase { contract: 10, name: "fun63", encode: e720, decode: d720, call: k720 },
    FnCase { contract: 10, name: "fun64", encode: e721, decode: d721, call: k721 },
    FnCase { contract: 10, name: "fun65", encode: e722, decode: d722, call: k722 },
    FnCase { contract: 10, name: "fun66", encode: e723, decode: d723, call: k723 },
    FnCase { contract: 10, name: "fun67", encode: e724, decode: d724, call: k724 },
    FnCase { contract: 10, name: "fun68", encode: e725, decode: d725, call: k725 },
    FnCase { contract: 10, name: "fun69", encode: e726, decode: d726, call: k726 },
    FnCase { contract: 10, name: "fun70", encode: e727, decode: d727, call: k727 },
    FnCase { contract: 10, name: "fun71", encode: e728, decode: d728, call: k728 },
    FnCase { contract: 10, name: "fun72", encode: e729, decode: d729, call: k729 },
    FnCase { contract: 10, name: "fun73", encode: e730, decode: d730, call: k730 },
    FnCase { contract: 10, name: "fun74", encode: e731, decode: d731, call: k731 },
    FnCase { contract: 10, name: "fun75", encode: e732, decode: d732, call: k732 },
    FnCase { contract: 10, name: "fun76", encode: e733, decode: d733, call: k733 },
    FnCase { contract: 10, name: "fun77", encode: e734, decode: d734, call: k734 },
    FnCase { contract: 10, name: "fun78", encode: e735, decode: d735, call: k735 },
    FnCase { contract: 10, name: "fun79", encode: e736, decode: d736, call: k736 },
    FnCase { contract: 10, name: "fun80", encode: e737, decode: d737, call: k737 },
    FnCase { contract: 10, name: "fun81", encode: e738, decode: d738, call: k738 },
    FnCase { contract: 10, name: "fun82", encode: e739, decode: d739, call: k739 },
    FnCase { contract: 10, name: "fun83", encode: e740, decode: d740, call: k740 },
    FnCase { contract: 10, name: "fun84", encode: e741, decode: d741, call: k741 },
    FnCase { contract: 10, name: "fun85", encode: e742, decode: d742, call: k742 },
    FnCase { contract: 10, name: "fun86", encode: e743, decode: d743, call: k743 },
    FnCase { contract: 10, name: "fun87", encode: e744, decode: d744, call: k744 },
    FnCase { contract: 10, name: "fun88", encode: e745, decode: d745, call: k745 },
    FnCase { contract: 10, name: "fun89", encode: e746, decode: d746, call: k746 },
    FnCase { contract: 10, name: "fun90", encode: e747, decode: d747, call: k747 },
    FnCase { contract: 10, name: "fun91", encode: e748, decode: d748, call: k748 },
    FnCase { contract: 10, name: "fun92", encode: e749, decode: d749, call: k749 },
    FnCase { contract: 10, name: "fun93", encode: e750, decode: d750, call: k750 },
    FnCase { contract: 10, name: "fun94", encode: e751, decode: d751, call: k751 },
    FnCase { contract: 10, name: "fun95", encode: e752, decode: d752, call: k752 },
    FnCase { contract: 10, name: "fun96", encode: e753, decode: d753, call: k753 },
    FnCase { contract: 10, name: "fun97", encode: e754, decode: d754, call: k754 },
    FnCase { contract: 10, name: "fun98", encode: e755, decode: d755, call: k755 },
    FnCase { contract: 10, name: "fun99", encode: e756, decode: d756, call: k756 },
    FnCase { contract: 11, name: "fun0", encode: e757, decode: d757, call: k757 },
    FnCase { contract: 11, name: "fun1", encode: e758, decode: d758, call: k758 },
    FnCase { contract: 11, name: "fun2", encode: e759, decode: d759, call: k759 },
    FnCase { contract: 11, name: "fun3", encode: e760, decode: d760, call: k760 },
    FnCase { contract: 11, name: "fun4", encode: e761, decode: d761, call: k761 },
    FnCase { contract: 11, name: "fun5", encode: e762, decode: d762, call: k762 },
    FnCase { contract: 11, name: "fun6", encode: e763, decode: d763, call: k763 },
    FnCase { contract: 11, name: "fun7", encode: e764, decode: d764, call: k764 },
    FnCase { contract: 11, name: "fun8", encode: e765, decode: d765, call: k765 },
    FnCase { contract: 11, name: "fun9", encode: e766, decode: d766, call: k766 },
    FnCase { contract: 11, name: "fun10", encode: e767, decode: d767, call: k767 },
    FnCase { contract: 11, name: "fun11", encode: e768, decode: d768, call: k768 },
    FnCase { contract: 11, name: "fun12", encode: e769, decode: d769, call: k769 },
    FnCase { contract: 11, name: "fun13", encode: e770, decode: d770, call: k770 },
    FnCase { contract: 11, name: "fun14", encode: e771, decode: d771, call: k771 },
    FnCase { contract: 11, name: "fun15", encode: e772, decode: d772, call: k772 },
    FnCase { contract: 11, name: "fun16", encode: e773, decode: d773, call: k773 },
    FnCase { contract: 11, name: "fun17", encode: e774, decode: d774, call: k774 },
    FnCase { contract: 11, name: "fun18", encode: e775, decode: d775, call: k775 },
    FnCase { contract: 11, name: "fun19", encode: e776, decode: d776, call: k776 },
    FnCase { contract: 11, name: "fun20", encode: e777, decode: d777, call: k777 },
    FnCase { contract: 11, name: "fun21", encode: e778, decode: d778, call: k778 },
    FnCase { contract: 11, name: "fun22", encode: e779, decode: d779, call: k779 },
    FnCase { contract: 11, name: "fun23", encode: e780, decode: d780, call: k780 },
    FnCase { contract: 11, name: "fun24", encode: e781, decode: d781, call: k781 },
    FnCase { contract: 11, name: "fun25", encode: e782, decode: d782, call: k782 },
    FnCase { contract: 11, name: "fun26", encode: e783, decode: d783, call: k783 },
    FnCase { contract: 11, name: "fun27", encode: e784, decode: d784, call: k784 },
    FnCase { contract: 11, name: "fun28", encode: e785, decode: d785, call: k785 },
    FnCase { contract: 11, name: "fun29", encode: e786, decode: d786, call: k786 },
    FnCase { contract: 11, name: "fun30", encode: e787, decode: d787, call: k787 },
    FnCase { contract: 11, name: "fun31", encode: e788, decode: d788, call: k788 },
    FnCase { contract: 11, name: "fun32", encode: e789, decode: d789, call: k789 },
    FnCase { contract: 11, name: "fun33", encode: e790, decode: d790, call: k790 },
    FnCase { contract: 11, name: "fun34", encode: e791, decode: d791, call: k791 },
    FnCase { contract: 11, name: "fun35", encode: e792, decode: d792, call: k792 },
    FnCase { contract: 11, name: "fun36", encode: e793, decode: d793, call: k793 },
    FnCase { contract: 11, name: "fun37", encode: e794, decode: d794, call: k794 },
    FnCase { contract: 11, name: "fun38", encode: e795, decode: d795, call: k795 },
    FnCase { contract: 11, name: "fun39", encode: e796, decode: d796, call: k796 },
    FnCase { contract: 11, name: "fun40", encode: e797, decode: d797, call: k797 },
    FnCase { contract: 11, name: "fun41", encode: e798, decode: d798, call: k798 },
    FnCase { contract: 11, name: "fun42", encode: e799, decode: d799, call: k799 },
    FnCase { contract: 11, name: "fun43", encode: e800, decode: d800, call: k800 },
    FnCase { contract: 11, name: "fun44", encode: e801, decode: d801, call: k801 },
    FnCase { contract: 11, name: "fun45", encode: e802, decode: d802, call: k802 },
    FnCase { contract: 11, name: "fun46", encode: e803, decode: d803, call: k803 },
    FnCase { contract: 11, name: "fun47", encode: e804, decode: d804, call: k804 },
    FnCase { contract: 11, name: "fun48", encode: e805, decode: d805, call: k805 },
    FnCase { contract: 11, name: "fun49", encode: e806, decode: d806, call: k806 },
    FnCase { contract: 11, name: "fun50", encode: e807, decode: d807, call: k807 },
    FnCase { contract: 11, name: "fun51", encode: e808, decode: d808, call: k808 },
    FnCase { contract: 11, name: "fun52", encode: e809, decode: d809, call: k809 },
    FnCase { contract: 11, name: "fun53", encode: e810, decode: d810, call: k810 },
    FnCase { contract: 11, name: "fun54", encode: e811, decode: d811, call: k811 },
    FnCase { contract: 11, name: "fun55", encode: e812, decode: d812, call: k812 },
    FnCase { contract: 11, name: "fun56", encode: e813, decode: d813, call: k813 },
    FnCase { contract: 11, name: "fun57", encode: e814, decode: d814, call: k814 },
    FnCase { contract: 11, name: "fun58", encode: e815, decode: d815, call: k815 },
    FnCase { contract: 11, name: "fun59", encode: e816, decode: d816, call: k816 },
    FnCase { contract: 11, name: "fun60", encode: e817, decode: d817, call: k817 },
    FnCase { contract: 11, name: "fun61", encode: e818, decode: d818, call: k818 },
    FnCase { contract: 11, name: "fun62", encode: e819, decode: d819, call: k819 },
    FnCase { contract: 11, name: "fun63", encode: e820, decode: d820, call: k820 },
    FnCase { contract: 11, name: "fun64", encode: e821, decode: d821, call: k821 },
    FnCase { contract: 11, name: "fun65", encode: e822, decode: d822, call: k822 },
    FnCase { contract: 11, name: "fun66", encode: e823, decode: d823, call: k823 },
    FnCase { contract: 11, name: "fun67", encode: e824, decode: d824, call: k824 },
    FnCase { contract: 11, name: "fun68", encode: e825, decode: d825, call: k825 },
    FnCase { contract: 11, name: "fun69", encode: e826, decode: d826, call: k826 },
    FnCase { contract: 11, name: "fun70", encode: e827, decode: d827, call: k827 },
    FnCase { contract: 11, name: "fun71", encode: e828, decode: d828, call: k828 },
    FnCase { contract: 11, name: "fun72", encode: e829, decode: d829, call: k829 },
    FnCase { contract: 11, name: "fun73", encode: e830, decode: d830, call: k830 },
    FnCase { contract: 11, name: "fun74", encode: e831, decode: d831, call: k831 },
    FnCase { contract: 11, name: "fun75", encode: e832, decode: d832, call: k832 },
    FnCase { contract: 11, name: "fun76", encode: e833, decode: d833, call: k833 },
    FnCase { contract: 11, name: "fun77", encode: e834, decode: d834, call: k834 },
    FnCase { contract: 11, name: "fun78", encode: e835, decode: d835, call: k835 },
    FnCase { contract: 11, name: "fun79", encode: e836, decode: d836, call: k836 },
    FnCase { contract: 11, name: "fun80", encode: e837, decode: d837, call: k837 },
    FnCase { contract: 11, name: "fun81", encode: e838, decode: d838, call: k838 },
    FnCase { contract: 11, name: "fun82", encode: e839, decode: d839, call: k839 },
    FnCase { contract: 11, name: "fun83", encode: e840, decode: d840, call: k840 },
    FnCase { contract: 11, name: "fun84", encode: e841, decode: d841, call: k841 },
    FnCase { contract: 11, name: "fun85", encode: e842, decode: d842, call: k842 },
    FnCase { contract: 11, name: "fun86", encode: e843, decode: d843, call: k843 },
    FnCase { contract: 11, name: "fun87", encode: e844, decode: d844, call: k844 },
    FnCase { contract: 11, name: "fun88", encode: e845, decode: d845, call: k845 },
    FnCase { contract: 11, name: "fun89", encode: e846, decode: d846, call: k846 },
    FnCase { contract: 11, name: "fun90", encode: e847, decode: d847, call: k847 },
    FnCase { contract: 11, name: "fun91", encode: e848, decode: d848, call: k848 },
    FnCase { contract: 11, name: "fun92", encode: e849, decode: d849, call: k849 },
    FnCase { contract: 11, name: "fun93", encode: e850, decode: d850, call: k850 },
    FnCase { contract: 11, name: "fun94", encode: e851, decode: d851, call: k851 },
    FnCase { contract: 11, name: "fun95", encode: e852, decode: d852, call: k852 },
    FnCase { contract: 11, name: "fun96", encode: e853, decode: d853, call: k853 },
    FnCase { contract: 11, name: "fun97", encode: e854, decode: d854, call: k854 },
    FnCase { contract: 11, name: "fun98", encode: e855, decode: d855, call: k855 },
    FnCase { contract: 11, name: "fun99", encode: e856, decode: d856, call: k856 },
    FnCase { contract: 11, name: "fun100", encode: e857, decode: d857, call: k857 },
    FnCase { contract: 11, name: "fun101", encode: e858, decode: d858, call: k858 },
    FnCase { contract: 11, name: "fun102", encode: e859, decode: d859, call: k859 },
    FnCase { contract: 11, name: "fun103", encode: e860, decode: d860, call: k860 },
    FnCase { contract: 11, name: "fun104", encode: e861, decode: d861, call: k861 },
    FnCase { contract: 12, name: "fun0", encode: e862, decode: d862, call: k862 },
    FnCase { contract: 12, name: "fun1", encode: e863, decode: d863, call: k863 },
    FnCase { contract: 12, name: "fun2", encode: e864, decode: d864, call: k864 },
    FnCase { contract: 12, name: "fun3", encode: e865, decode: d865, call: k865 },
    FnCase { contract: 12, name: "fun4", encode: e866, decode: d866, call: k866 },
    FnCase { contract: 12, name: "fun5", encode: e867, decode: d867, call: k867 },
    FnCase { contract: 12, name: "fun6", encode: e868, decode: d868, call: k868 },
    FnCase { contract: 12, name: "fun7", encode: e869, decode: d869, call: k869 },
    FnCase { contract: 12, name: "fun8", encode: e870, decode: d870, call: k870 },
    FnCase { contract: 12, name: "fun9", encode: e871, decode: d871, call: k871 },
    FnCase { contract: 12, name: "fun10", encode: e872, decode: d872, call: k872 },
    FnCase { contract: 12, name: "fun11", encode: e873, decode: d873, call: k873 },
    FnCase { contract: 12, name: "fun12", encode: e874, decode: d874, call: k874 },
    FnCase { contract: 12, name: "fun13", encode: e875, decode: d875, call: k875 },
    FnCase { contract: 12, name: "fun14", encode: e876, decode: d876, call: k876 },
    FnCase { contract: 12, name: "fun15", encode: e877, decode: d877, call: k877 },
    FnCase { contract: 12, name: "fun16", encode: e878, decode: d878, call: k878 },
    FnCase { contract: 12, name: "fun17", encode: e879, decode: d879, call: k879 },
    FnCase { contract: 12, name: "fun18", encode: e880, decode: d880, call: k880 },
    FnCase { contract: 12, name: "fun19", encode: e881, decode: d881, call: k881 },
    FnCase { contract: 12, name: "fun20", encode: e882, decode: d882, call: k882 },
    FnCase { contract: 12, name: "fun21", encode: e883, decode: d883, call: k883 },
    FnCase { contract: 12, name: "fun22", encode: e884, decode: d884, call: k884 },
    FnCase { contract: 12, name: "fun23", encode: e885, decode: d885, call: k885 },
    FnCase { contract: 12, name: "fun24", encode: e886, decode: d886, call: k886 },
    FnCase { contract: 12, name: "fun25", encode: e887, decode: d887, call: k887 },
    FnCase { contract: 12, name: "fun26", encode: e888, decode: d888, call: k888 },
    FnCase { contract: 12, name: "fun27", encode: e889, decode: d889, call: k889 },
    FnCase { contract: 12, name: "fun28", encode: e890, decode: d890, call: k890 },
    FnCase { contract: 12, name: "fun29", encode: e891, decode: d891, call: k891 },
    FnCase { contract: 12, name: "fun30", encode: e892, decode: d892, call: k892 },
    FnCase { contract: 12, name: "fun31", encode: e893, decode: d893, call: k893 },
    FnCase { contract: 12, name: "fun32", encode: e894, decode: d894, call: k894 },
    FnCase { contract: 12, name: "fun33", encode: e895, decode: d895, call: k895 },
    FnCase { contract: 12, name: "fun34", encode: e896, decode: d896, call: k896 },
    FnCase { contract: 12, name: "fun35", encode: e897, decode: d897, call: k897 },
    FnCase { contract: 12, name: "fun36", encode: e898, decode: d898, call: k898 },
    FnCase { contract: 12, name: "fun37", encode: e899, decode: d899, call: k899 },
    FnCase { contract: 12, name: "fun38", encode: e900, decode: d900, call: k900 },
    FnCase { contract: 12, name: "fun39", encode: e901, decode: d901, call: k901 },
    FnCase { contract: 12, name: "fun40", encode: e902, decode: d902, call: k902 },
    FnCase { contract: 12, name: "fun41", encode: e903, decode: d903, call: k903 },
    FnCase { contract: 12, name: "fun42", encode: e904, decode: d904, call: k904 },
    FnCase { contract: 12, name: "fun43", encode: e905, decode: d905, call: k905 },
    FnCase { contract: 12, name: "fun44", encode: e906, decode: d906, call: k906 },
    FnCase { contract: 12, name: "fun45", encode: e907, decode: d907, call: k907 },
    FnCase { contract: 12, name: "fun46", encode: e908, decode: d908, call: k908 },
    FnCase { contract: 12, name: "fun47", encode: e909, decode: d909, call: k909 },
    FnCase { contract: 12, name: "fun48", encode: e910, decode: d910, call: k910 },
    FnCase { contract: 12, name: "fun49", encode: e911, decode: d911, call: k911 },
    FnCase { contract: 12, name: "fun50", encode: e912, decode: d912, call: k912 },
    FnCase { contract: 12, name: "fun51", encode: e913, decode: d913, call: k913 },
    FnCase { contract: 12, name: "fun52", encode: e914, decode: d914, call: k914 },
    FnCase { contract: 12, name: "fun53", encode: e915, decode: d915, call: k915 },
    FnCase { contract: 12, name: "fun54", encode: e916, decode: d916, call: k916 },
    FnCase { contract: 12, name: "fun55", encode: e917, decode: d917, call: k917 },
    FnCase { contract: 12, name: "fun56", encode: e918, decode: d918, call: k918 },
    FnCase { contract: 12, name: "fun57", encode: e919, decode: d919, call: k919 },
    FnCase { contract: 12, name: "fun58", encode: e920, decode: d920, call: k920 },
    FnCase { contract: 12, name: "fun59", encode: e921, decode: d921, call: k921 },
    FnCase { contract: 12, name: "fun60", encode: e922, decode: d922, call: k922 },
    FnCase { contract: 12, name: "fun61", encode: e923, decode: d923, call: k923 },
    FnCase { contract: 12, name: "fun62", encode: e924, decode: d924, call: k924 },
    FnCase { contract: 12, name: "fun63", encode: e925, decode: d925, call: k925 },
    FnCase { contract: 12, name: "fun64", encode: e926, decode: d926, call: k926 },
    FnCase { contract: 12, name: "fun65", encode: e927, decode: d927, call: k927 },
    FnCase { contract: 12, name: "fun66", encode: e928, decode: d928, call: k928 },
    FnCase { contract: 12, name: "fun67", encode: e929, decode: d929, call: k929 },
    FnCase { contract: 12, name: "fun68", encode: e930, decode: d930, call: k930 },
    FnCase { contract: 12, name: "fun69", encode: e931, decode: d931, call: k931 },
    FnCase { contract: 12, name: "fun70", encode: e932, decode: d932, call: k932 },
    FnCase { contract: 12, name: "fun71", encode: e933, decode: d933, call: k933 },
    FnCase { contract: 12, name: "fun72", encode: e934, decode: d934, call: k934 },
    FnCase { contract: 12, name: "fun73", encode: e935, decode: d935, call: k935 },
    FnCase { contract: 12, name: "fun74", encode: e936, decode: d936, call: k936 },
    FnCase { contract: 12, name: "fun75", encode: e937, decode: d937, call: k937 },
    FnCase { contract: 12, name: "fun76", encode: e938, decode: d938, call: k938 },
    FnCase { contract: 12, name: "fun77", encode: e939, decode: d939, call: k939 },
    FnCase { contract: 12, name: "fun78", encode: e940, decode: d940, call: k940 },
    FnCase { contract: 12, name: "fun79", encode: e941, decode: d941, call: k941 },
    FnCase { contract: 12, name: "fun80", encode: e942, decode: d942, call: k942 },
    FnCase { contract: 12, name: "fun81", encode: e943, decode: d943, call: k943 },
    FnCase { contract: 12, name: "fun82", encode: e944, decode: d944, call: k944 },
    FnCase { contract: 12, name: "fun83", encode: e945, decode: d945, call: k945 },
    FnCase { contract: 12, name: "fun84", encode: e946, decode: d946, call: k946 },
    FnCase { contract: 12, name: "fun85", encode: e947, decode: d947, call: k947 },
    FnCase { contract: 12, name: "fun86", encode: e948, decode: d948, call: k948 },
    FnCase { contract: 12, name: "fun87", encode: e949, decode: d949, call: k949 },
    FnCase { contract: 12, name: "fun88", encode: e950, decode: d950, call: k950 },
    FnCase { contract: 12, name: "fun89", encode: e951, decode: d951, call: k951 },
    FnCase { contract: 12, name: "fun90", encode: e952, decode: d952, call: k952 },
    FnCase { contract: 12, name: "fun91", encode: e953, decode: d953, call: k953 },
    FnCase { contract: 12, name: "fun92", encode: e954, decode: d954, call: k954 },
    FnCase { contract: 12, name: "fun93", encode: e955, decode: d955, call: k955 },
    FnCase { contract: 12, name: "fun94", encode: e956, decode: d956, call: k956 },
    FnCase { contract: 12, name: "fun95", encode: e957, decode: d957, call: k957 },
    FnCase { contract: 12, name: "fun96", encode: e958, decode: d958, call: k958 },
    FnCase { contract: 12, name: "fun97", encode: e959, decode: d959, call: k959 },
    FnCase { contract: 12, name: "fun98", encode: e960, decode: d960, call: k960 },
    FnCase { contract: 12, name: "fun99", encode: e961, decode: d961, call: k961 },
    FnCase { contract: 12, name: "fun100", encode: e962, decode: d962, call: k962 },
    FnCase { contract: 12, name: "fun101", encode: e963, decode: d963, call: k963 },
    FnCase { contract: 12, name: "fun102", encode: e964, decode: d964, call: k964 },
    FnCase { contract: 12, name: "fun103", encode: e965, decode: d965, call: k965 },
    FnCase { contract: 12, name: "fun104", encode: e966, decode: d966, call: k966 },
    FnCase { contract: 12, name: "fun105", encode: e967, decode: d967, call: k967 },
    FnCase { contract: 12, name: "fun106", encode: e968, decode: d968, call: k968 },
    FnCase { contract: 12, name: "fun107", encode: e969, decode: d969, call: k969 },
    FnCase { contract: 13, name: "a", encode: e970, decode: d970, call: k970 },
    FnCase { contract: 13, name: "B", encode: e971, decode: d971, call: k971 },
    FnCase { contract: 13, name: "x1", encode: e972, decode: d972, call: k972 },
    FnCase { contract: 13, name: "x1y2", encode: e973, decode: d973, call: k973 },
    FnCase { contract: 13, name: "getX", encode: e974, decode: d974, call: k974 },
    FnCase { contract: 13, name: "getID", encode: e975, decode: d975, call: k975 },
    FnCase { contract: 13, name: "doIt2Times", encode: e976, decode: d976, call: k976 },
    FnCase { contract: 13, name: "_leading", encode: e977, decode: d977, call: k977 },
    FnCase { contract: 13, name: "trailing_", encode: e978, decode: d978, call: k978 },
    FnCase { contract: 13, name: "a_b_c", encode: e979, decode: d979, call: k979 },
    FnCase { contract: 13, name: "double__under", encode: e980, decode: d980, call: k980 },
    FnCase { contract: 13, name: "ALLCAPS", encode: e981, decode: d981, call: k981 },
    FnCase { contract: 13, name: "Mixed_Case", encode: e982, decode: d982, call: k982 },
    FnCase { contract: 13, name: "erc20", encode: e983, decode: d983, call: k983 },
    FnCase { contract: 13, name: "balanceOf", encode: e984, decode: d984, call: k984 },
    FnCase { contract: 13, name: "new_", encode: e985, decode: d985, call: k985 },
    FnCase { contract: 13, name: "Vec", encode: e986, decode: d986, call: k986 },
    FnCase { contract: 13, name: "Option", encode: e987, decode: d987, call: k987 },
    FnCase { contract: 13, name: "ethabi", encode: e988, decode: d988, call: k988 },
    FnCase { contract: 13, name: "decoder", encode: e989, decode: d989, call: k989 },
    FnCase { contract: 13, name: "tokens", encode: e990, decode: d990, call: k990 },
    FnCase { contract: 13, name: "output", encode: e991, decode: d991, call: k991 },
    FnCase { contract: 13, name: "out", encode: e992, decode: d992, call: k992 },
    FnCase { contract: 13, name: "string", encode: e993, decode: d993, call: k993 },
    FnCase { contract: 13, name: "uint256", encode: e994, decode: d994, call: k994 },
    FnCase { contract: 13, name: "result", encode: e995, decode: d995, call: k995 },
    FnCase { contract: 13, name: "INTERNAL_ERR", encode: e996, decode: d996, call: k996 },
    FnCase { contract: 13, name: "getx", encode: e997, decode: d997, call: k997 },
    FnCase { contract: 13, name: "getid", encode: e998, decode: d998, call: k998 },
    FnCase { contract: 13, name: "balanceof", encode: e999, decode: d999, call: k999 },
    FnCase { contract: 13, name: "aBc", encode: e1000, decode: d1000, call: k1000 },
    FnCase { contract: 13, name: "Abc", encode: e1001, decode: d1001, call: k1001 },
    FnCase { contract: 13, name: "AbC", encode: e1002, decode: d1002, call: k1002 },
    FnCase { contract: 13, name: "doit2times", encode: e1003, decode: d1003, call: k1003 },
    FnCase { contract: 13, name: "mixedcase", encode: e1004, decode: d1004, call: k1004 },
    FnCase { contract: 13, name: "x_1", encode: e1005, decode: d1005, call: k1005 },
    FnCase { contract: 13, name: "named0", encode: e1006, decode: d1006, call: k1006 },
    FnCase { contract: 13, name: "named1", encode: e1007, decode: d1007, call: k1007 },
    FnCase { contract: 13, name: "named2", encode: e1008, decode: d1008, call: k1008 },
    FnCase { contract: 13, name: "named3", encode: e1009, decode: d1009, call: k1009 },
    FnCase { contract: 13, name: "named4", encode: e1010, decode: d1010, call: k1010 },
    FnCase { contract: 13, name: "named5", encode: e1011, decode: d1011, call: k1011 },
    FnCase { contract: 13, name: "named6", encode: e1012, decode: d1012, call: k1012 },
    FnCase { contract: 13, name: "named7", encode: e1013, decode: d1013, call: k1013 },
    FnCase { contract: 13, name: "named8", encode: e1014, decode: d1014, call: k1014 },
    FnCase { contract: 13, name: "named9", encode: e1015, decode: d1015, call: k1015 },
    FnCase { contract: 13, name: "named10", encode: e1016, decode: d1016, call: k1016 },
    FnCase { contract: 13, name: "named11", encode: e1017, decode: d1017, call: k1017 },
    FnCase { contract: 13, name: "mutPureTrue", encode: e1018, decode: d1018, call: k1018 },
    FnCase { contract: 13, name: "mutPureFalse", encode: e1019, decode: d1019, call: k1019 },
    FnCase { contract: 13, name: "mutViewTrue", encode: e1020, decode: d1020, call: k1020 },
    FnCase { contract: 13, name: "mutViewFalse", encode: e1021, decode: d1021, call: k1021 },
    FnCase { contract: 13, name: "mutNonpayableTrue", encode: e1022, decode: d1022, call: k1022 },
    FnCase { contract: 13, name: "mutNonpayableFalse", encode: e1023, decode: d1023, call: k1023 },
    FnCase { contract: 13, name: "mutPayableTrue", encode: e1024, decode: d1024, call: k1024 },
    FnCase { contract: 13, name: "mutPayableFalse", encode: e1025, decode: d1025, call: k1025 },
];

fn c6x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c6::constructor(code) }
fn c13x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c13::constructor(code, arg::<Uint>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c14x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c14::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn c15x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c15::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn c16x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c16::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn c17x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c17::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn c18x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c18::constructor(code, arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn c19x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c19::constructor(code, arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn c20x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c20::constructor(code, arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn c21x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c21::constructor(code, arg::<Uint>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn c22x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c22::constructor(code, arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn c23x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c23::constructor(code, arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn c24x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c24::constructor(code, arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn c25x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c25::constructor(code, arg::<String>(v, 0), arg::<Uint>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn c26x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c26::constructor(code, arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3)) }
fn c27x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c27::constructor(code, arg::<String>(v, 0), arg::<String>(v, 1), arg::<Uint>(v, 2), arg::<String>(v, 3)) }
fn c28x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c28::constructor(code, arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<Uint>(v, 3)) }
fn c29x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c29::constructor(code, arg::<String>(v, 0), arg::<String>(v, 1), arg::<String>(v, 2), arg::<String>(v, 3)) }
fn c30x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c30::constructor(code, arg::<Address>(v, 0), arg::<[u8; 3]>(v, 1), arg::<Hash>(v, 2), arg::<Vec<u8>>(v, 3), arg::<String>(v, 4)) }
fn c31x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c31::constructor(code, arg::<Vec<Vec<u8>>>(v, 0), arg::<Vec<bool>>(v, 1), arg::<[Uint; 2]>(v, 2), arg::<[String; 2]>(v, 3), arg::<bool>(v, 4), arg::<Uint>(v, 5)) }
fn c32x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c32::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2), arg::<[u8; 3]>(v, 3), arg::<Hash>(v, 4), arg::<Vec<u8>>(v, 5), arg::<String>(v, 6)) }
fn c33x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c33::constructor(code, arg::<Vec<u8>>(v, 0), arg::<String>(v, 1), arg::<Vec<Vec<u8>>>(v, 2), arg::<Vec<bool>>(v, 3), arg::<[Uint; 2]>(v, 4), arg::<[String; 2]>(v, 5), arg::<bool>(v, 6), arg::<Uint>(v, 7)) }
fn c34x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c34::constructor(code, arg::<[String; 2]>(v, 0), arg::<bool>(v, 1), arg::<Uint>(v, 2), arg::<Uint>(v, 3), arg::<Address>(v, 4), arg::<[u8; 3]>(v, 5), arg::<Hash>(v, 6), arg::<Vec<u8>>(v, 7), arg::<String>(v, 8)) }
fn c35x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c35::constructor(code, arg::<[u8; 3]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2), arg::<String>(v, 3), arg::<Vec<Vec<u8>>>(v, 4), arg::<Vec<bool>>(v, 5), arg::<[Uint; 2]>(v, 6), arg::<[String; 2]>(v, 7), arg::<bool>(v, 8), arg::<Uint>(v, 9)) }
fn c36x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c36::constructor(code, arg::<Vec<bool>>(v, 0), arg::<[Uint; 2]>(v, 1), arg::<[String; 2]>(v, 2), arg::<bool>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Address>(v, 6), arg::<[u8; 3]>(v, 7), arg::<Hash>(v, 8), arg::<Vec<u8>>(v, 9), arg::<String>(v, 10)) }
fn c37x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c37::constructor(code, arg::<Uint>(v, 0), arg::<Address>(v, 1), arg::<[u8; 3]>(v, 2), arg::<Hash>(v, 3), arg::<Vec<u8>>(v, 4), arg::<String>(v, 5), arg::<Vec<Vec<u8>>>(v, 6), arg::<Vec<bool>>(v, 7), arg::<[Uint; 2]>(v, 8), arg::<[String; 2]>(v, 9), arg::<bool>(v, 10), arg::<Uint>(v, 11)) }
fn c38x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c38::constructor(code, arg::<Address>(v, 0), arg::<Address>(v, 1)) }
fn c39x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c39::constructor(code, arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn c40x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c40::constructor(code, arg::<Address>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn c41x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c41::constructor(code, arg::<Address>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn c42x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c42::constructor(code, arg::<Address>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c43x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c43::constructor(code, arg::<Vec<u8>>(v, 0), arg::<Address>(v, 1)) }
fn c44x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c44::constructor(code, arg::<Vec<u8>>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn c45x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c45::constructor(code, arg::<Vec<u8>>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn c46x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c46::constructor(code, arg::<Vec<u8>>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn c47x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c47::constructor(code, arg::<Vec<u8>>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c48x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c48::constructor(code, arg::<[u8; 4]>(v, 0), arg::<Address>(v, 1)) }
fn c49x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c49::constructor(code, arg::<[u8; 4]>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn c50x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c50::constructor(code, arg::<[u8; 4]>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn c51x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c51::constructor(code, arg::<[u8; 4]>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn c52x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c52::constructor(code, arg::<[u8; 4]>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c53x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c53::constructor(code, arg::<[bool; 2]>(v, 0), arg::<Address>(v, 1)) }
fn c54x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c54::constructor(code, arg::<[bool; 2]>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn c55x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c55::constructor(code, arg::<[bool; 2]>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn c56x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c56::constructor(code, arg::<[bool; 2]>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn c57x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c57::constructor(code, arg::<[bool; 2]>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c58x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c58::constructor(code, arg::<Vec<String>>(v, 0), arg::<Address>(v, 1)) }
fn c59x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c59::constructor(code, arg::<Vec<String>>(v, 0), arg::<Vec<u8>>(v, 1)) }
fn c60x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c60::constructor(code, arg::<Vec<String>>(v, 0), arg::<[u8; 4]>(v, 1)) }
fn c61x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c61::constructor(code, arg::<Vec<String>>(v, 0), arg::<[bool; 2]>(v, 1)) }
fn c62x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c62::constructor(code, arg::<Vec<String>>(v, 0), arg::<Vec<String>>(v, 1)) }
fn c63x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c63::constructor(code, arg::<Uint>(v, 0)) }
fn c64x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c64::constructor(code, arg::<Uint>(v, 0)) }
fn c65x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c65::constructor(code, arg::<Uint>(v, 0)) }
fn c66x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c66::constructor(code, arg::<Uint>(v, 0)) }
fn c67x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c67::constructor(code, arg::<Uint>(v, 0)) }
fn c68x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c68::constructor(code, arg::<Uint>(v, 0)) }
fn c69x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c69::constructor(code, arg::<Uint>(v, 0)) }
fn c70x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c70::constructor(code, arg::<Uint>(v, 0)) }
fn c71x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c71::constructor(code, arg::<Uint>(v, 0)) }
fn c72x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c72::constructor(code, arg::<Uint>(v, 0)) }
fn c73x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c73::constructor(code, arg::<Uint>(v, 0)) }
fn c74x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c74::constructor(code, arg::<Uint>(v, 0)) }
fn c75x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c75::constructor(code, arg::<Uint>(v, 0)) }
fn c76x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c76::constructor(code, arg::<Uint>(v, 0)) }
fn c77x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c77::constructor(code, arg::<Uint>(v, 0)) }
fn c78x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c78::constructor(code, arg::<Uint>(v, 0)) }
fn c79x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c79::constructor(code, arg::<Uint>(v, 0)) }
fn c80x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c80::constructor(code, arg::<Uint>(v, 0)) }
fn c81x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c81::constructor(code, arg::<Uint>(v, 0)) }
fn c82x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c82::constructor(code, arg::<Uint>(v, 0)) }
fn c83x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c83::constructor(code, arg::<Uint>(v, 0)) }
fn c84x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c84::constructor(code, arg::<Uint>(v, 0)) }
fn c85x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c85::constructor(code, arg::<Uint>(v, 0)) }
fn c86x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c86::constructor(code, arg::<Uint>(v, 0)) }
fn c87x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c87::constructor(code, arg::<Uint>(v, 0)) }
fn c88x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c88::constructor(code, arg::<Uint>(v, 0)) }
fn c89x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c89::constructor(code, arg::<Uint>(v, 0)) }
fn c90x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c90::constructor(code, arg::<Uint>(v, 0)) }
fn c91x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c91::constructor(code, arg::<Uint>(v, 0)) }
fn c92x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c92::constructor(code, arg::<Uint>(v, 0)) }
fn c93x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c93::constructor(code, arg::<Uint>(v, 0)) }
fn c94x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c94::constructor(code, arg::<Uint>(v, 0)) }
fn c95x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c95::constructor(code, arg::<Uint>(v, 0)) }
fn c96x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c96::constructor(code, arg::<Uint>(v, 0)) }
fn c97x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c97::constructor(code, arg::<Uint>(v, 0)) }
fn c98x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c98::constructor(code, arg::<Uint>(v, 0)) }
fn c99x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c99::constructor(code, arg::<Uint>(v, 0)) }
fn c100x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c100::constructor(code, arg::<Uint>(v, 0)) }
fn c101x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c101::constructor(code, arg::<Uint>(v, 0)) }
fn c102x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c102::constructor(code, arg::<Uint>(v, 0)) }
fn c103x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c103::constructor(code, arg::<Uint>(v, 0)) }
fn c104x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c104::constructor(code, arg::<Uint>(v, 0)) }
fn c105x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c105::constructor(code, arg::<Uint>(v, 0)) }
fn c106x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c106::constructor(code, arg::<Uint>(v, 0)) }
fn c107x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c107::constructor(code, arg::<Uint>(v, 0)) }
fn c108x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c108::constructor(code, arg::<Uint>(v, 0)) }
fn c109x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c109::constructor(code, arg::<Uint>(v, 0)) }
fn c110x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c110::constructor(code, arg::<Uint>(v, 0)) }
fn c111x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c111::constructor(code, arg::<Uint>(v, 0)) }
fn c112x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c112::constructor(code, arg::<Uint>(v, 0)) }
fn c113x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c113::constructor(code, arg::<Uint>(v, 0)) }
fn c114x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c114::constructor(code, arg::<Uint>(v, 0)) }
fn c115x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c115::constructor(code, arg::<Uint>(v, 0)) }
fn c116x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c116::constructor(code, arg::<Uint>(v, 0)) }
fn c117x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c117::constructor(code, arg::<Uint>(v, 0)) }
fn c118x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c118::constructor(code, arg::<Uint>(v, 0)) }
fn c119x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c119::constructor(code, arg::<Uint>(v, 0)) }
fn c120x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c120::constructor(code, arg::<Uint>(v, 0)) }
fn c121x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c121::constructor(code, arg::<Uint>(v, 0)) }
fn c122x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c122::constructor(code, arg::<Uint>(v, 0)) }
fn c123x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c123::constructor(code, arg::<Uint>(v, 0)) }
fn c124x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c124::constructor(code, arg::<Uint>(v, 0)) }
fn c125x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c125::constructor(code, arg::<Uint>(v, 0)) }
fn c126x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c126::constructor(code, arg::<Uint>(v, 0)) }
fn c127x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c127::constructor(code, arg::<[u8; 1]>(v, 0)) }
fn c128x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c128::constructor(code, arg::<[u8; 2]>(v, 0)) }
fn c129x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c129::constructor(code, arg::<[u8; 3]>(v, 0)) }
fn c130x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c130::constructor(code, arg::<[u8; 4]>(v, 0)) }
fn c131x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c131::constructor(code, arg::<[u8; 5]>(v, 0)) }
fn c132x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c132::constructor(code, arg::<[u8; 6]>(v, 0)) }
fn c133x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c133::constructor(code, arg::<[u8; 7]>(v, 0)) }
fn c134x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c134::constructor(code, arg::<[u8; 8]>(v, 0)) }
fn c135x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c135::constructor(code, arg::<[u8; 9]>(v, 0)) }
fn c136x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c136::constructor(code, arg::<[u8; 10]>(v, 0)) }
fn c137x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c137::constructor(code, arg::<[u8; 11]>(v, 0)) }
fn c138x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c138::constructor(code, arg::<[u8; 12]>(v, 0)) }
fn c139x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c139::constructor(code, arg::<[u8; 13]>(v, 0)) }
fn c140x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c140::constructor(code, arg::<[u8; 14]>(v, 0)) }
fn c141x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c141::constructor(code, arg::<[u8; 15]>(v, 0)) }
fn c142x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c142::constructor(code, arg::<[u8; 16]>(v, 0)) }
fn c143x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c143::constructor(code, arg::<[u8; 17]>(v, 0)) }
fn c144x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c144::constructor(code, arg::<[u8; 18]>(v, 0)) }
fn c145x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c145::constructor(code, arg::<[u8; 19]>(v, 0)) }
fn c146x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c146::constructor(code, arg::<[u8; 20]>(v, 0)) }
fn c147x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c147::constructor(code, arg::<[u8; 21]>(v, 0)) }
fn c148x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c148::constructor(code, arg::<[u8; 22]>(v, 0)) }
fn c149x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c149::constructor(code, arg::<[u8; 23]>(v, 0)) }
fn c150x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c150::constructor(code, arg::<[u8; 24]>(v, 0)) }
fn c151x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c151::constructor(code, arg::<[u8; 25]>(v, 0)) }
fn c152x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c152::constructor(code, arg::<[u8; 26]>(v, 0)) }
fn c153x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c153::constructor(code, arg::<[u8; 27]>(v, 0)) }
fn c154x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c154::constructor(code, arg::<[u8; 28]>(v, 0)) }
fn c155x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c155::constructor(code, arg::<[u8; 29]>(v, 0)) }
fn c156x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c156::constructor(code, arg::<[u8; 30]>(v, 0)) }
fn c157x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c157::constructor(code, arg::<[u8; 31]>(v, 0)) }
fn c158x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c158::constructor(code, arg::<Hash>(v, 0)) }
fn c159x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c159::constructor(code, arg::<Address>(v, 0)) }
fn c160x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c160::constructor(code, arg::<Vec<u8>>(v, 0)) }
fn c161x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c161::constructor(code, arg::<Hash>(v, 0)) }
fn c162x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c162::constructor(code, arg::<[u8; 4]>(v, 0)) }
fn c163x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c163::constructor(code, arg::<Uint>(v, 0)) }
fn c164x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c164::constructor(code, arg::<Uint>(v, 0)) }
fn c165x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c165::constructor(code, arg::<Uint>(v, 0)) }
fn c166x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c166::constructor(code, arg::<bool>(v, 0)) }
fn c167x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c167::constructor(code, arg::<String>(v, 0)) }
fn c168x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c168::constructor(code, arg::<Vec<Uint>>(v, 0)) }
fn c169x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c169::constructor(code, arg::<[Address; 2]>(v, 0)) }
fn c170x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c170::constructor(code, arg::<Vec<Vec<u8>>>(v, 0)) }
fn c171x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c171::constructor(code, arg::<[String; 2]>(v, 0)) }
fn c172x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c172::constructor(code, arg::<Vec<[[u8; 4]; 2]>>(v, 0)) }
fn c173x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c173::constructor(code, arg::<[Vec<Uint>; 2]>(v, 0)) }
fn c174x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c174::constructor(code, arg::<Uint>(v, 0), arg::<String>(v, 1)) }
fn c175x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c175::constructor(code, arg::<String>(v, 0), arg::<Uint>(v, 1)) }
fn c176x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c176::constructor(code, arg::<[u8; 4]>(v, 0), arg::<Hash>(v, 1), arg::<Vec<u8>>(v, 2)) }
fn c177x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c177::constructor(code, arg::<Vec<bool>>(v, 0), arg::<[bool; 2]>(v, 1), arg::<bool>(v, 2)) }
fn c178x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c178::constructor(code, arg::<Address>(v, 0), arg::<Vec<u8>>(v, 1), arg::<Hash>(v, 2), arg::<[u8; 4]>(v, 3), arg::<Uint>(v, 4), arg::<Uint>(v, 5), arg::<Uint>(v, 6), arg::<bool>(v, 7), arg::<String>(v, 8)) }
fn c179x(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c179::constructor(code, arg::<Uint>(v, 0), arg::<Uint>(v, 1), arg::<Address>(v, 2)) }

pub const CTORS: &[CtorCase] = &[
    CtorCase { contract: 6, encode: c6x },
    CtorCase { contract: 13, encode: c13x },
    CtorCase { contract: 14, encode: c14x },
    CtorCase { contract: 15, encode: c15x },
    CtorCase { contract: 16, encode: c16x },
    CtorCase { contract: 17, encode: c17x },
    CtorCase { contract: 18, encode: c18x },
    CtorCase { contract: 19, encode: c19x },
    CtorCase { contract: 20, encode: c20x },
    CtorCase { contract: 21, encode: c21x },
    CtorCase { contract: 22, encode: c22x },
    CtorCase { contract: 23, encode: c23x },
    CtorCase { contract: 24, encode: c24x },
    CtorCase { contract: 25, encode: c25x },
    CtorCase { contract: 26, encode: c26x },
    CtorCase { contract: 27, encode: c27x },
    CtorCase { contract: 28, encode: c28x },
    CtorCase { contract: 29, encode: c29x },
    CtorCase { contract: 30, encode: c30x },
    CtorCase { contract: 31, encode: c31x },
    CtorCase { contract: 32, encode: c32x },
    CtorCase { contract: 33, encode: c33x },
    CtorCase { contract: 34, encode: c34x },
    CtorCase { contract: 35, encode: c35x },
    CtorCase { contract: 36, encode: c36x },
    CtorCase { contract: 37, encode: c37x },
    CtorCase { contract: 38, encode: c38x },
    CtorCase { contract: 39, encode: c39x },
    CtorCase { contract: 40, encode: c40x },
    CtorCase { contract: 41, encode: c41x },
    CtorCase { contract: 42, encode: c42x },
    CtorCase { contract: 43, encode: c43x },
    CtorCase { contract: 44, encode: c44x },
    CtorCase { contract: 45, encode: c45x },
    CtorCase { contract: 46, encode: c46x },
    CtorCase { contract: 47, encode: c47x },
    CtorCase { contract: 48, encode: c48x },
    CtorCase { contract: 49, encode: c49x },
    CtorCase { contract: 50, encode: c50x },
    CtorCase { contract: 51, encode: c51x },
    CtorCase { contract: 52, encode: c52x },
    CtorCase { contract: 53, encode: c53x },
    CtorCase { contract: 54, encode: c54x },
    CtorCase { contract: 55, encode: c55x },
    CtorCase { contract: 56, encode: c56x },
    CtorCase { contract: 57, encode: c57x },
    CtorCase { contract: 58, encode: c58x },
    CtorCase { contract: 59, encode: c59x },
    CtorCase { contract: 60, encode: c60x },
    CtorCase { contract: 61, encode: c61x },
    CtorCase { contract: 62, encode: c62x },
    CtorCase { contract: 63, encode: c63x },
    CtorCase { contract: 64, encode: c64x },
    CtorCase { contract: 65, encode: c65x },
    CtorCase { contract: 66, encode: c66x },
    CtorCase { contract: 67, encode: c67x },
    CtorCase { contract: 68, encode: c68x },
    CtorCase { contract: 69, encode: c69x },
    CtorCase { contract: 70, encode: c70x },
    CtorCase { contract: 71, encode: c71x },
    CtorCase { contract: 72, encode: c72x },
    CtorCase { contract: 73, encode: c73x },
    CtorCase { contract: 74, encode: c74x },
    CtorCase { contract: 75, encode: c75x },
    CtorCase { contract: 76, encode: c76x },
    CtorCase { contract: 77, encode: c77x },
    CtorCase { contract: 78, encode: c78x },
    CtorCase { contract: 79, encode: c79x },
    CtorCase { contract: 80, encode: c80x },
    CtorCase { contract: 81, encode: c81x },
    CtorCase { contract: 82, encode: c82x },
    CtorCase { contract: 83, encode: c83x },
    CtorCase { contract: 84, encode: c84x },
    CtorCase { contract: 85, encode: c85x },
    CtorCase { contract: 86, encode: c86x },
    CtorCase { contract: 87, encode: c87x },
    CtorCase { contract: 88, encode: c88x },
    CtorCase { contract: 89, encode: c89x },
    CtorCase { contract: 90, encode: c90x },
    CtorCase { contract: 91, encode: c91x },
    CtorCase { contract: 92, encode: c92x },
    CtorCase { contract: 93, encode: c93x },
    CtorCase { contract: 94, encode: c94x },
    CtorCase { contract: 95, encode: c95x },
    CtorCase { contract: 96, encode: c96x },
    CtorCase { contract: 97, encode: c97x },
    CtorCase { contract: 98, encode: c98x },
    CtorCase { contract: 99, encode: c99x },
    CtorCase { contract: 100, encode: c100x },
    CtorCase { contract: 101, encode: c101x },
    CtorCase { contract: 102, encode: c102x },
    CtorCase { contract: 103, encode: c103x },
    CtorCase { contract: 104, encode: c104x },
    CtorCase { contract: 105, encode: c105x },
    CtorCase { contract: 106, encode: c106x },
    CtorCase { contract: 107, encode: c107x },
    CtorCase { contract: 108, encode: c108x },
    CtorCase { contract: 109, encode: c109x },
    CtorCase { contract: 110, encode: c110x },
    CtorCase { contract: 111, encode: c111x },
    CtorCase { contract: 112, encode: c112x },
    CtorCase { contract: 113, encode: c113x },
    CtorCase { contract: 114, encode: c114x },
    CtorCase { contract: 115, encode: c115x },
    CtorCase { contract: 116, encode: c116x },
    CtorCase { contract: 117, encode: c117x },
    CtorCase { contract: 118, encode: c118x },
    CtorCase { contract: 119, encode: c119x },
    CtorCase { contract: 120, encode: c120x },
    CtorCase { contract: 121, encode: c121x },
    CtorCase { contract: 122, encode: c122x },
    CtorCase { contract: 123, encode: c123x },
    CtorCase { contract: 124, encode: c124x },
    CtorCase { contract: 125, encode: c125x },
    CtorCase { contract: 126, encode: c126x },
    CtorCase { contract: 127, encode: c127x },
    CtorCase { contract: 128, encode: c128x },
    CtorCase { contract: 129, encode: c129x },
    CtorCase { contract: 130, encode: c130x },
    CtorCase { contract: 131, encode: c131x },
    CtorCase { contract: 132, encode: c132x },
    CtorCase { contract: 133, encode: c133x },
    CtorCase { contract: 134, encode: c134x },
    CtorCase { contract: 135, encode: c135x },
    CtorCase { contract: 136, encode: c136x },
    CtorCase { contract: 137, encode: c137x },
    CtorCase { contract: 138, encode: c138x },
    CtorCase { contract: 139, encode: c139x },
    CtorCase { contract: 140, encode: c140x },
    CtorCase { contract: 141, encode: c141x },
    CtorCase { contract: 142, encode: c142x },
    CtorCase { contract: 143, encode: c143x },
    CtorCase { contract: 144, encode: c144x },
    CtorCase { contract: 145, encode: c145x },
    CtorCase { contract: 146, encode: c146x },
    CtorCase { contract: 147, encode: c147x },
    CtorCase { contract: 148, encode: c148x },
    CtorCase { contract: 149, encode: c149x },
    CtorCase { contract: 150, encode: c150x },
    CtorCase { contract: 151, encode: c151x },
    CtorCase { contract: 152, encode: c152x },
    CtorCase { contract: 153, encode: c153x },
    CtorCase { contract: 154, encode: c154x },
    CtorCase { contract: 155, encode: c155x },
    CtorCase { contract: 156, encode: c156x },
    CtorCase { contract: 157, encode: c157x },
    CtorCase { contract: 158, encode: c158x },
    CtorCase { contract: 159, encode: c159x },
    CtorCase { contract: 160, encode: c160x },
    CtorCase { contract: 161, encode: c161x },
    CtorCase { contract: 162, encode: c162x },
    CtorCase { contract: 163, encode: c163x },
    CtorCase { contract: 164, encode: c164x },
    CtorCase { contract: 165, encode: c165x },
    CtorCase { contract: 166, encode: c166x },
    CtorCase { contract: 167, encode: c167x },
    CtorCase { contract: 168, encode: c168x },
    CtorCase { contract: 169, encode: c169x },
    CtorCase { contract: 170, encode: c170x },
    CtorCase { contract: 171, encode: c171x },
    CtorCase { contract: 172, encode: c172x },
    CtorCase { contract: 173, encode: c173x },
    CtorCase { contract: 174, encode: c174x },
    CtorCase { contract: 175, encode: c175x },
    CtorCase { contract: 176, encode: c176x },
    CtorCase { contract: 177, encode: c177x },
    CtorCase { contract: 178, encode: c178x },
    CtorCase { contract: 179, encode: c179x },
];
