@unit duration
@spec shim_core.rs text_base.rs duration_spec.rs
@method chars = vx_chars
@method parse = vx_parse
@type Duration = VxDuration
@call Duration::from_secs = VxDuration::from_secs
@call Duration::from_millis = VxDuration::from_millis
@source cmd/src/main.rs
only parse_duration
@fn parse_duration opt=maperr
    ensures match duration_of(s@) { Some(n) => r matches Ok(d) && d.nanos() == n * 1_000_000_000, None => r is Err },
