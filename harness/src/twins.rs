//! Operations that look like those of `ops2`, under the same names.
use ops2::twin;

twin!(Twin0, "twins::Twin0");
twin!(Twin1, "twins::Twin1");
twin!(Other, "twins::Other");

pub mod a {
    use ops2::twin;
    twin!(Twin0, "twins::a::Twin0");
    twin!(Twin1, "twins::a::Twin1");

    pub mod b {
        use ops2::twin;
        twin!(Twin0, "twins::a::b::Twin0");
        twin!(Other, "twins::a::b::Other");
    }
}

pub mod b {
    use ops2::twin;
    twin!(Twin0, "twins::b::Twin0");

    pub mod a {
        use ops2::twin;
        twin!(Twin0, "twins::b::a::Twin0");
        twin!(Twin1, "twins::b::a::Twin1");
    }
}

/// Within functions there is no module to tell them apart.
pub mod local {
    use super::super::props::c08::{entry, Entry};

    pub fn first() -> Entry {
        use ops2::twin;
        twin!(Twin0, "twins::local::first::Twin0");
        entry::<Twin0>()
    }

    pub fn second() -> Entry {
        use ops2::twin;
        twin!(Twin0, "twins::local::second::Twin0");
        entry::<Twin0>()
    }
}
