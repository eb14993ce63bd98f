@unit http
@spec shim_core.rs text_base.rs stream_stub.rs http_spec.rs
@method trim = vx_trim
@method to_string = vx_to_string
@method to_owned = vx_to_owned
@method lines = vx_lines
@method split_whitespace = vx_split_whitespace
@method splitn = vx_splitn
@method split_once = vx_split_once
@method find = vx_find
@method join = vx_join
@method collect = vx_collect
@method is_empty = vx_is_empty
@method len = vx_len
@method as_bytes = vx_as_bytes
@method into_bytes = vx_into_bytes
@method to_lowercase = vx_to_lowercase
@method starts_with = vx_starts_with
@method unwrap_or_default = vx_unwrap_or_default
@method push_str = vx_push_text
@method parse = vx_parse
@method as_ref = vx_as_ref
@type From = VxFrom
@type AsRef = VxAsRef
@type Write = VxWrite
@type BufWriter = VxWriter
@type BufReader = VxReader
@type std::io::Error = VxIoError
@type std::str::FromStr = VxFromStr
@type std::default::Default = VxDefault
@type multipart::client::lazy::PreparedFields = VxPrepared
@call Scheme::from = Scheme::vx_from
@call Method::from = Method::vx_from
@call Version::from = Version::vx_from
@call Url::from = Url::vx_from
@call String::default = vx_no_text
@call String::new = vx_no_text
@call String::from_utf8 = vx_from_utf8
@call form_urlencoded::Serializer::new = VxForm::new
@call multipart::client::lazy::Multipart::new = VxMultipart::new
@call BufWriter::new = VxWriter::new
@call std::io::copy = vx_copy
@call Path::new = vx_path
@call T::default = T::vx_default
@fnvalue Error::WriteFailed
@fnvalue Error::ReadFailed
@trait From = VxFrom
@trait Default =
@trait AsRef = VxAsRef
@traitimpl impl From<&str> for Version
@traitimpl impl From<Option<&str>> for Version
@traitimpl impl AsRef<str> for Version
@traitimpl impl Display for Version
@traitimpl impl From<&str> for Method
@traitimpl impl From<Option<&str>> for Method
@traitimpl impl AsRef<str> for Method
@traitimpl impl Display for Method
@traitimpl impl From<&str> for Scheme
@traitimpl impl From<Option<&str>> for Scheme
@traitimpl impl AsRef<str> for Scheme
@traitimpl impl Display for Scheme
@traitimpl impl From<&str> for Url
@traitimpl impl From<Option<&str>> for Url
@traitimpl impl Default for Url
@traitimpl impl Display for Url
@source lib/src/http/mod.rs
expand http_type
@source lib/src/http/error.rs
expand http_error
@source lib/src/http/url.rs
@source lib/src/http/header.rs
@source lib/src/http/content.rs
@source lib/src/http/request.rs
@source lib/src/http/response.rs
drop Response::to_map
@fn Version::default
    ensures r == Version::Http11,
@fn From<&str> for Version::from
    ensures r == version_of(str@),
@hint entry
    proof { names_differ(); }
@fn From<Option<&str>> for Version::from
    ensures r == version_of(text_of(str)),
@hint entry
    proof { names_differ(); }
@fn AsRef<str> for Version::as_ref
    ensures r@ == version_text(*self),
@fn Display for Version::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + version_text(*self),
@fn Method::default
    ensures r == Method::Get,
@fn From<&str> for Method::from
    ensures r == method_of(str@),
@hint entry
    proof { names_differ(); }
@fn From<Option<&str>> for Method::from
    ensures r == method_of(text_of(str)),
@hint entry
    proof { names_differ(); }
@fn AsRef<str> for Method::as_ref
    ensures r@ == method_text(*self),
@fn Display for Method::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + method_text(*self),
@fn Scheme::default
    ensures r == Scheme::Http,
@fn From<&str> for Scheme::from
    ensures r == scheme_of(str@),
@hint entry
    proof { names_differ(); }
@fn From<Option<&str>> for Scheme::from
    ensures r == scheme_of(text_of(str)),
@hint entry
    proof { names_differ(); }
@fn AsRef<str> for Scheme::as_ref
    ensures r@ == scheme_text(*self),
@fn Display for Scheme::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + scheme_text(*self),
@fn From<&str> for Url::from opt=exact,strindex
    ensures target_of(r) == target(str@),
@hint entry
    proof { reveal_with_fuel(split_text, 3); reveal_strlit("://"); }
@fn From<Option<&str>> for Url::from
    ensures target_of(r) == (match str { Some(s) => target(s@), None => usual_target() }),
@fn Default for Url::default
    ensures target_of(r) == usual_target(),
@fn Display for Url::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + url_text(self.scheme, self.host@, self.port, self.path@),
@fn Headers::default
    ensures r.inner@.len() == 0,
@fn Headers::insert
    ensures final(self).inner@ == old(self).inner@.push(header),
@fn Headers::iter
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> *(#[trigger] r.remaining()[i]) == self.inner@[i],
@fn Headers::is_empty
    ensures r == (self.inner@.len() == 0),
@fn Headers::len
    ensures r == self.inner@.len(),
@fn Content::write opt=exact,io
    ensures final(writer).sink() == old(writer).sink(), r is Ok ==> final(writer).taken() == old(writer).taken() + content_bytes(*old(self)),
@fn Request::default
    ensures request_is(r, Content::Empty, Seq::empty()),
@fn Request::from opt=exact,strindex
    ensures request_is(r.0, r.1, message@),
@hint 0#before
    let ghost vx_all = lines.left();
    let ghost mut vx_left = lines.left();
    proof { assert(pairs_of(headers.inner@) =~= Seq::empty()); assert(pairs_of(headers.inner@) + headers_in(vx_all) =~= headers_in(vx_all)); }
@loop 0
    invariant_except_break pairs_of(headers.inner@) + headers_in(lines.left()) == headers_in(vx_all), after_blank(lines.left()) == after_blank(vx_all), vx_left == lines.left(),
    invariant view_of(content_type) == type_in(pairs_of(headers.inner@)),
    ensures pairs_of(headers.inner@) == headers_in(vx_all), lines.left() == after_blank(vx_all),
    decreases lines.left().len(),
@hint 0#begin
    proof { header_step(pairs_of(headers.inner@), vx_left); }
@hint 0#end
    proof { vx_left = lines.left(); }
@hint 1#before
    let ghost vx_b = lines.left();
    let ghost mut vx_left = lines.left();
    proof { assert(serializer.pairs() + pairs_in(vx_b) =~= pairs_in(vx_b)); }
@loop 1
    invariant serializer.pairs() + pairs_in(lines.left()) == pairs_in(vx_b), vx_left == lines.left(),
    ensures serializer.pairs() == pairs_in(vx_b),
    decreases lines.left().len(),
@hint 1#begin
    proof { header_step(serializer.pairs(), vx_left); }
@hint 1#end
    proof { vx_left = lines.left(); }
@hint 2#before
    let ghost vx_b = lines.left();
    let ghost mut vx_left = lines.left();
    let ghost mut vx_done = Seq::<Pair>::empty();
    proof { assert(vx_done + pairs_in(vx_b) =~= pairs_in(vx_b)); assert(parts_of(vx_done) =~= Seq::empty()); }
@loop 2
    invariant vx_done + pairs_in(lines.left()) == pairs_in(vx_b), parts.parts() == parts_of(vx_done), vx_left == lines.left(),
    ensures parts.parts() == parts_of(pairs_in(vx_b)),
    decreases lines.left().len(),
@hint 2#begin
    proof { header_step(vx_done, vx_left); }
@hint 2#end
    proof { match pair_of(trimmed(vx_left[0])) { Some(p) => { vx_done = vx_done.push(p); }, None => {} } vx_left = lines.left(); }
@fn Request::write opt=exact,io attr=#[verifier::loop_isolation(false)]
    ensures r is Ok ==> delivered(writer.sink(), request_bytes(*old(self), content)), *final(self) == *old(self), writer.gives_back(),
@hint entry
    let ghost vx_c = content;
    let ghost vx_me = *self;
@hint 0#before
    let ghost vx_head = writer.taken();
    let ghost vx_sink = writer.sink();
    proof { assert(vx_head =~= utf8(method_text(vx_me.method) + " "@ + vx_me.url.path@ + " "@ + version_text(vx_me.version) + "\r\n"@)); assert(vx_head + header_bytes(self.headers.inner@, 0) =~= vx_head); }
@loop 0
    invariant writer.sink() == vx_sink, writer.taken() == vx_head + header_bytes(self.headers.inner@, vxit0.index@), *self == vx_me,
        vxit0.seq().len() == self.headers.inner@.len(), forall|i: int| 0 <= i < self.headers.inner@.len() ==> *(#[trigger] vxit0.seq()[i]) == self.headers.inner@[i],
@hint exit
    proof { assert(writer.taken() =~= request_bytes(vx_me, vx_c)); }
@fn Response::from attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires f matches Some(g) ==> g.requires(()),
    ensures match r { Ok(x) => reader.clean() && response_is(x, reader.text()), Err(_) => !reader.clean() },
@hint entry
    let ghost vx_text = reader.text();
    let ghost vx_clean = reader.clean();
    proof { response_step(Seq::empty(), vx_text); }
@hint let#splits
    let ghost vx_w = splits.left();
    proof {
        assert(line@ =~= line1(vx_text));
        if vx_w.len() > 2 { assert(vx_w.drop_first().drop_first() =~= vx_w.skip(2)); }
        if vx_w.len() == 2 { assert(vx_w.drop_first().drop_first() =~= Seq::empty()); }
        if vx_w.len() == 1 { assert(vx_w.drop_first() =~= Seq::empty()); }
        if vx_w.len() == 0 { assert(vx_w =~= Seq::empty()); }
    }
@hint 0#before
    let ghost vx_all = reader.text();
    proof { assert(pairs_of(headers.inner@) =~= Seq::empty()); assert(pairs_of(headers.inner@) + response_headers(vx_all) =~= response_headers(vx_all)); }
@loop 0
    invariant_except_break pairs_of(headers.inner@) + response_headers(reader.text()) == response_headers(vx_all), response_body(reader.text()) == response_body(vx_all),
    invariant reader.clean() == vx_clean,
    ensures pairs_of(headers.inner@) == response_headers(vx_all), reader.text() == response_body(vx_all),
    decreases reader.text().len(),
@hint 0#begin
    proof { response_step(pairs_of(headers.inner@), reader.text()); }
@fn parse
    ensures match str { Some(s) => T::reads(s@, Some(r)) || (T::reads(s@, None) && T::standard(r)), None => T::standard(r) },
