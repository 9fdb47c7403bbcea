/// The channel a value stands for.
uninterp spec fn as_channel<C>(c: C) -> ChannelPath;
/// TRUSTED: `as_ref` of a value which stands for a channel always gives that channel.
#[verifier::external_body]
fn vs_as_channel<C: AsRef<ChannelPath>>(c: &C) -> (r: &ChannelPath)
    ensures *r == as_channel(*c),
{ c.as_ref() }
spec fn chars_of<C>(c: C) -> Seq<char> { cpath(as_channel(c)) }
