/// The text of the font demo
const DEMO: &[(usize, &str)] = &[
    (BOLD, "Hello, world! ää 🀄🃏\u{1F170}\u{1F170}\u{FE0F}\n"),
    (REGULAR, "Hello, world! ää 🀄🃏\u{1F170}\u{1F170}\u{FE0F}\n"),
    (SMALL, "Hello, world! ää 🀄🃏\u{1F170}\u{1F170}\u{FE0F}\n"),
    (REGULAR, "\n   🍎       🎸       🕶        🍎\n"),
    (REGULAR, " apple  guitar  glasses  apple\n\n"),
    (REGULAR, "           😸     🎩    🔑\n"),
    (REGULAR, "           cat    hat    key\n\n"),
    (REGULAR, "The quick brown fox jumps over the lazy dog. Zwölf Boxkämpfer jagen Viktor quer über den großen Sylter Deich.\n"),
];
