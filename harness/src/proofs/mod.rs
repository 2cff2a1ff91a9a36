macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            $(v.extend_from_slice($m::ALL);)*
            v
        }
    };
}
modules!(p01 p02 p03 p04 p05 p06 p07 p08 p09 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20 p21 p24);
