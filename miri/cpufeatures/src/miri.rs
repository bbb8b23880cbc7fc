//! Minimal miri support: a feature is there iff it is enabled statically.

#[macro_export]
#[doc(hidden)]
macro_rules! __unless_target_features {
    ($($tf:tt),+ => $body:expr ) => {
        cfg!(all($(target_feature=$tf,)*))
    };
}

#[macro_export]
#[doc(hidden)]
macro_rules! __detect_target_features {
    ($($tf:tt),+) => {
        cfg!(all($(target_feature=$tf,)*))
    };
}
