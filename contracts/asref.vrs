/// TRUSTED: a String as a str has its characters.
pub assume_specification[ <String as AsRef<str>>::as_ref ](s: &String) -> (r: &str)
    ensures r@ == s@;
