@unit client
@rlimit 20
@includeext http.vc
@nospec stream_stub.rs
@spec client_spec.rs
@arg clock vx_clock VxClock = Instant::now .elapsed
@arg net vx_net VxNet = TcpStream::connect TcpStream::connect_timeout std::sync::mpsc::channel drop .send .recv_timeout .recv .vx_receive vx_spawn_connect_happy_thread0
@type FusedIterator = VxFused
@call std::sync::mpsc::channel = vx_channel
@call drop = vx_drop_sender
@thread Stream::connect_happy#0 sender: VxSender, addr: VxAddr, timeout: Option<VxDuration>
@step rotate (a: &mut A, b: &mut B, c: &mut Option<T>) -> Option<T>
@fnvalue Error::TcpConnectFailed
@type Duration = VxDuration
@type Instant = VxInstant
@type TcpStream = VxTcp
@type SocketAddr = VxAddr
@type rustls::ClientConnection = VxTls
@call Instant::now = VxInstant::now
@call SystemTime::now = VxWallTime::now
@call const std::time::UNIX_EPOCH = VX_EPOCH
@call const Duration::ZERO = VxDuration::ZERO
@call BufReader::new = VxReader::new
@call rustls::ClientConfig::builder = VxTlsBuilder::new
@call rustls::ClientConnection::new = VxTls::new
@call TcpStream::connect = VxTcp::connect
@call TcpStream::connect_timeout = VxTcp::connect_timeout
@method to_socket_addrs = vx_to_socket_addrs
@method try_into = vx_try_into
@trait Read =
@trait Write =
@type std::io::Result = VxIoResult
@call const std::io::ErrorKind::ConnectionAborted = VxIoKind::ConnectionAborted
@call const std::io::ErrorKind::UnexpectedEof = VxIoKind::UnexpectedEof
@call rustls::Stream::new = VxTlsStream::new
@method as_mut = vx_as_mut
@traitimpl impl Read for Stream
@traitimpl impl Write for Stream
@traitimpl impl Default for Time
@traitimpl impl Display for Error
@source lib/src/http/time.rs
@source lib/src/http/stream.rs
drop RACE
@source lib/src/http/client.rs
@fn Default for Time::default
    ensures zero_parts(r),
@fn Display for Error::fmt opt=exact,strlit
    ensures exists|t: Seq<char>| #[trigger] (old(f).buf@ + t) == final(f).buf@ && t.len() > 0,
@hint entry
    let ghost vx_b = f.buf@;
@hint exit
    proof { let vx_t = f.buf@.skip(vx_b.len() as int); assert(vx_b + vx_t =~= f.buf@); }
@fn Stream::connect opt=clock,net
    ensures final(vx_clock).after(*old(vx_clock)), match r {
        Ok(s) => s.took() <= final(vx_clock).now() - old(vx_clock).now() && accepted(*old(vx_net), *final(vx_net), url.host@, url.port, s.peer()) && (s is Cipher <==> url.scheme is Https) && s.fresh(),
        Err(e) => not_reached(*old(vx_net), *final(vx_net), url.host@, url.port, e) || (url.scheme is Https && (e is InvalidUrlHost || e is TlsHandshakeFailed)),
    },
@fn Stream::connect_tcp opt=clock,net,maperr
    ensures final(vx_clock).after(*old(vx_clock)), match r {
        Ok(p) => p.1.ns() <= final(vx_clock).now() - old(vx_clock).now() && accepted(*old(vx_net), *final(vx_net), host@, port, p.0.peer()) && p.0.fresh(),
        Err(e) => not_reached(*old(vx_net), *final(vx_net), host@, port, e),
    },
@fn Stream::connect_tls opt=clock,net,maperr,method:to_owned=vx_to_string
    ensures final(vx_clock).after(*old(vx_clock)), match r {
        Ok(s) => s is Cipher && s.fresh() && s.took() <= final(vx_clock).now() - old(vx_clock).now() && accepted(*old(vx_net), *final(vx_net), host@, port, s.peer()),
        Err(e) => not_reached(*old(vx_net), *final(vx_net), host@, port, e) || e is InvalidUrlHost || e is TlsHandshakeFailed,
    },
@fn Stream::connect_happy opt=net,inlineclosure,slicepat,partition,whilelet,drain,method:into_iter=vx_into_iter attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    ensures match r {
        Ok(s) => s.fresh() && attempts(*old(vx_net), *final(vx_net), addrs@) && addrs@.contains(s.peer()),
        Err(_) => all_refused(*old(vx_net), *final(vx_net), addrs@),
    },
@hint entry
    let ghost vx_n0 = *vx_net;
    let ghost vx_all = addrs@;
    let ghost mut vx_order: Seq<VxAddr> = Seq::empty();
    proof {
        assert(vx_all.take(0) =~= Seq::empty());
        if vx_all.len() == 1 {
            single_alternates(vx_all);
            assert(vx_all.contains(vx_all[0]));
            assert(vx_all.take(1) =~= vx_all);
            assert(vx_n0.tried().push(vx_all[0]) =~= vx_n0.tried() + vx_all.take(1));
            assert(vx_all =~= Seq::<VxAddr>::empty().push(vx_all[0]));
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert forall|n: VxNet| #[trigger] n.tried() == vx_n0.tried().push(vx_all[0]) implies tried_first(vx_n0, n, vx_all, 1) by { assert(n.tried() =~= vx_n0.tried() + vx_all.take(1)); }
            assert(vx_n0.refused().insert(vx_all[0]) =~= vx_n0.refused().add(vx_all.to_multiset()));
        }
    }
@hint 0#begin
    let ghost vx_i = vx_all.len() - vx_iter0.rest().len() - 1;
    proof { assert(vx_all.take(vx_i + 1).drop_last() =~= vx_all.take(vx_i)); assert(vx_all.take(vx_i + 1).last() == vx_all[vx_i]); assert(vx_all.skip(vx_i).drop_first() =~= vx_all.skip(vx_i + 1)); }
@loop 0
    invariant vx_iter0.rest().len() <= vx_all.len(), vx_iter0.rest() == vx_all.skip(vx_all.len() - vx_iter0.rest().len()),
        vx_yes1@ == of_kind(vx_all.take(vx_all.len() - vx_iter0.rest().len()), true), vx_no2@ == of_kind(vx_all.take(vx_all.len() - vx_iter0.rest().len()), false),
    decreases vx_iter0.rest().len(),
@hint 0#after
    proof { assert(vx_all.take(vx_all.len() as int) =~= vx_all); }
@hint 1#before
    proof {
        vx_order = vx_iter1.left();
        assert(alternating(vx_order, vx_all));
        order_of_all(vx_order, vx_all);
        assert(vx_order.take(0) =~= Seq::empty());
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(Seq::<VxAddr>::empty().to_multiset() =~= Multiset::empty());
        assert(vx_n0.refused().add(Multiset::empty()) =~= vx_n0.refused());
        assert(Multiset::<VxAddr>::empty().add(vx_n0.refused()) =~= vx_n0.refused());
        assert(vx_n0.tried() + vx_order.take(0) =~= vx_n0.tried());
        assert(vx_order.skip(0) =~= vx_order);
    }
@loop 1
    invariant vx_iter1.left().len() <= vx_order.len(), vx_iter1.left() == vx_order.skip(vx_order.len() - vx_iter1.left().len()),
        tried_first(vx_n0, *vx_net, vx_order, vx_order.len() - vx_iter1.left().len()),
        vx_net.pending().add(vx_net.refused()) == vx_n0.refused().add(vx_order.take(vx_order.len() - vx_iter1.left().len()).to_multiset()),
        sender.original(), sender.channel() == vx_net.channel(), receiver.channel() == vx_net.channel(), vx_net.held(),
        forall|x: VxAddr| vx_net.pending().contains(x) ==> vx_all.contains(x),
    decreases vx_iter1.left().len(),
@hint 1#begin
    let ghost (vx_p, vx_r) = (vx_net.pending(), vx_net.refused());
    let ghost vx_j = vx_order.len() - vx_iter1.left().len() - 1;
    proof {
        assert(addr == vx_order[vx_j]);
        assert(vx_order.contains(addr));
        assert(vx_order.take(vx_j + 1) =~= vx_order.take(vx_j).push(addr));
        assert(vx_order.skip(vx_j).drop_first() =~= vx_order.skip(vx_j + 1));
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|n: VxNet| #[trigger] n.tried() == vx_net.tried().push(addr) implies tried_first(vx_n0, n, vx_order, vx_j + 1) by { assert(n.tried() =~= vx_n0.tried() + vx_order.take(vx_j + 1)); }
    }
@hint 1#end
    proof {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert forall|x: VxAddr| #[trigger] vx_net.pending().add(vx_net.refused()).count(x) == vx_n0.refused().add(vx_order.take(vx_j + 1).to_multiset()).count(x) by { assert(vx_p.add(vx_r).count(x) == vx_n0.refused().add(vx_order.take(vx_j).to_multiset()).count(x)); }
        assert(vx_net.pending().add(vx_net.refused()) =~= vx_n0.refused().add(vx_order.take(vx_j + 1).to_multiset()));
    }
@hint 1#after
    proof {
        assert(vx_order.take(vx_order.len() as int) =~= vx_order);
        assert forall|n: VxNet| #[trigger] n.tried() == vx_n0.tried() + vx_order implies tried_first(vx_n0, n, vx_order, vx_order.len() as int) by {}
    }
@hint 2#before
    let ghost mut vx_loop_p = vx_net.pending();
    let ghost mut vx_loop_r = vx_net.refused();
@hint 2#end
    proof { assert forall|x: VxAddr| #[trigger] vx_net.pending().add(vx_net.refused()).count(x) == vx_n0.refused().add(vx_order.to_multiset()).count(x) by { assert(vx_loop_p.add(vx_loop_r).count(x) == vx_n0.refused().add(vx_order.to_multiset()).count(x)); }
        assert(vx_net.pending().add(vx_net.refused()) =~= vx_n0.refused().add(vx_order.to_multiset()));
        vx_loop_p = vx_net.pending(); vx_loop_r = vx_net.refused(); }
@hint 2#after
    proof { assert(Multiset::<VxAddr>::empty().add(vx_net.refused()) =~= vx_net.refused()); }
@loop 2
    invariant vx_net.tried() == vx_n0.tried() + vx_order,
        vx_net.pending().add(vx_net.refused()) == vx_n0.refused().add(vx_order.to_multiset()),
        receiver.channel() == vx_net.channel(), !vx_net.held(),
        forall|x: VxAddr| vx_net.pending().contains(x) ==> vx_all.contains(x),
        vx_loop_p == vx_net.pending(), vx_loop_r == vx_net.refused(),
    decreases vx_net.pending().len(),
@fn Stream::connect_happy_thread0 opt=net
    ensures final(vx_net).tried() == old(vx_net).tried().push(addr), final(vx_net).posted() == old(vx_net).posted().push(addr),
@fn Stream::connect_timeout opt=net
    ensures tried_one(*old(vx_net), *final(vx_net), *addr), match r { Ok(s) => s.peer() == *addr && s.fresh() && final(vx_net).refused() == old(vx_net).refused(), Err(_) => final(vx_net).refused() == old(vx_net).refused().insert(*addr) },
@fn rotate
    ensures r.left() == in_turns(a.left(), b.left()),
@fn rotate_step
    ensures ({ let was = turns_left(*old(c), old(a).left(), old(b).left()); let is = turns_left(*final(c), final(a).left(), final(b).left());
        match r { Some(x) => was.len() > 0 && x == was[0] && is == was.drop_first(), None => was.len() == 0 && is.len() == 0 } }),
@fn Stream::resolve
    ensures r.ns() == self.took(),
@fn Read for Stream::read opt=guards
    ensures stream_read(*old(self), *final(self), final(buf)@, r), final(buf)@.len() == old(buf)@.len(),
@fn Write for Stream::write
    ensures stream_write(*old(self), *final(self), buf@, r),
@fn Write for Stream::flush
    ensures stream_flush(*old(self), *final(self), r),
@fn Client::send opt=clock,net
    ensures r.3@ == Seq::<char>::empty() ==> parts_add_up(r.2),
        r.3@ == Seq::<char>::empty() ==> exists|peer: VxAddr| accepted(*old(vx_net), *final(vx_net), r.0.url.host@, r.0.url.port, peer),
        exists|c: Content| #[trigger] some_content(c) && request_is(r.0, c, message@) && (r.3@ == Seq::<char>::empty() ==> exists|s: Stream| #[trigger] some_stream(s) && sent_on(*old(vx_net), *final(vx_net), r.0, c, s)),
        r.3@ == Seq::<char>::empty() ==> exists|s: Stream| #[trigger] some_stream(s) && answered_on(*old(vx_net), *final(vx_net), r.0, r.1, s),
        r.3@ != Seq::<char>::empty() ==> no_response(r.1),
@hint entry
    let ghost vx_n0 = *vx_net;
@hint let#request
    let ghost vx_c = content;
    let ghost vx_q = request;
    proof { assert(some_content(vx_c)); assert(request_is(vx_q, vx_c, message@)); }
@hint let#stream
    let ghost vx_s = stream;
    proof { assert(some_stream(vx_s)); }
@fn Response::from opt=clock,thunk attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires f matches Some(g) ==> !g.called(),
    ensures final(vx_clock).after(*old(vx_clock)), r is Ok ==> (f matches Some(g) ==> final(g).called() && final(g).within(*old(vx_clock), *final(vx_clock))),
        match r { Ok(x) => reader.clean() && response_is(x, reader.text()), Err(_) => !reader.clean() },
@hint entry
    let ghost vx_text = reader.text();
    let ghost vx_clean = reader.clean();
    proof { response_step(Seq::empty(), vx_text); }
@hint let#splits
    let ghost vx_w = splits.left();
    proof {
        assert(line@ =~= line1(vx_text));
        if vx_w.len() > 2 { assert(vx_w.drop_first().drop_first() =~= vx_w.skip(2)); }
        if vx_w.len() == 2 { assert(vx_w.drop_first().drop_first() =~= Seq::empty()); }
        if vx_w.len() == 1 { assert(vx_w.drop_first() =~= Seq::empty()); }
        if vx_w.len() == 0 { assert(vx_w =~= Seq::empty()); }
    }
@hint 0#before
    let ghost vx_all = reader.text();
    proof { assert(pairs_of(headers.inner@) =~= Seq::empty()); assert(pairs_of(headers.inner@) + response_headers(vx_all) =~= response_headers(vx_all)); }
@loop 0
    invariant_except_break pairs_of(headers.inner@) + response_headers(reader.text()) == response_headers(vx_all), response_body(reader.text()) == response_body(vx_all),
    invariant reader.clean() == vx_clean,
    ensures pairs_of(headers.inner@) == response_headers(vx_all), reader.text() == response_body(vx_all),
    decreases reader.text().len(),
@hint 0#begin
    proof { response_step(pairs_of(headers.inner@), reader.text()); }
@raw
#[verifier::reject_recursive_types(T)]
pub struct VxState_rotate<T, A: VxFused<Item = T>, B: VxFused<Item = T>> { pub a: A, pub b: B, pub c: Option<T> }
impl<T, A: VxFused<Item = T>, B: VxFused<Item = T>> VxState_rotate<T, A, B> {
    pub open spec fn left(&self) -> Seq<T> { turns_left(self.c, self.a.left(), self.b.left()) }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left().len() == 0 }
    { rotate_step(&mut self.a, &mut self.b, &mut self.c) }
}
