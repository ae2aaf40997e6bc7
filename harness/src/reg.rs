/// register!{ name: expr_f32, expr_f64; ... } defines extern "C" entry points name_f32 / name_f64 and LIST
macro_rules! register {
  ($($n32:ident, $n64:ident : $f:ident $(:: <$($g:ty),*>)? ;)*) => {
    $( #[no_mangle] pub extern "C" fn $n32() { $f::<f32 $(, $($g),*)?>() }
       #[no_mangle] pub extern "C" fn $n64() { $f::<f64 $(, $($g),*)?>() } )*
    pub const LIST: &'static [(&'static str, extern "C" fn())] = &[
      $( (stringify!($n32), $n32), (stringify!($n64), $n64), )*
    ];
  };
}
