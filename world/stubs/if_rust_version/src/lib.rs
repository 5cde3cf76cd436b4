#[macro_export]
macro_rules! if_rust_version { (>= $v:literal { $($t:tt)* } else { $($e:tt)* }) => { $($t)* }; (>= $v:literal { $($t:tt)* }) => { $($t)* } }
