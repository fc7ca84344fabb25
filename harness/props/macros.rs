/// Declares the verification jobs of a module: each is an entry point of the
/// symbolic engine and, natively, a replayable function.
macro_rules! jobs {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[cfg(symbolic)] #[no_mangle] pub extern "C" fn $name() $body
            #[cfg(not(symbolic))] pub fn $name() $body
        )*
        #[cfg(not(symbolic))]
        pub fn table() -> Vec<(&'static str, fn())> { vec![$((stringify!($name), $name as fn())),*] }
    };
}
