/// The characters of a path.
spec fn ppath(p: PropertyPath) -> Seq<char> { p.0@ }
spec fn cpath(p: ChannelPath) -> Seq<char> { ppath(p.0) }
