== DataType::size
ret r
spec {{{
    ensures r == dt_size(*self),
}}}

== TdmsError
sub Box<dyn std::error::Error + Send + Sync + 'static> => DynError
sub labview_interop::types::timestamp::LVTimeError => LVTimeError
