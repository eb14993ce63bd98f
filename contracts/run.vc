@unit run
@rlimit 20
@includeext stat.vc
@includeext eval.vc
@spec session_spec.rs run_spec.rs
@arg work vx_work VxWork = std::sync::mpsc::channel std::mem::drop drop .join vx_spawn_test_thread0 vx_spawn_test_thread1 vx_spawn_test_thread2 vx_spawn_test_thread3 vx_spawn_handle_interrupt_thread0
@arg run vx_run VxRun = .load .store .write .send std::thread::sleep .vx_receive
@thread test#0 continuous: Arc<VxFlag>, maximun: u32, test: Arc<Vec<Expr>>, mut context: Context, mut writer: Option<VxWriter>, name: Arc<String>, thread: u32, stat: bool, sender: VxSender
@thread test#1 duration: Duration, continuous: Arc<VxFlag>
@thread test#2 test: Vec<Expr>, mut context: Context, mut writer: Option<VxWriter>, name: String, thread: usize, stat: bool, sender: VxSender
@thread test#3 stat: bool, receiver: VxReceiver
@thread handle_interrupt#0 continuous: Arc<VxFlag>
@type PathBuf = VxPath
@type AtomicBool = VxFlag
@type Writer = VxWriter
@call Writer::new = VxWriter::new
@call std::env::var = vx_env_var
@call Interface::parse = vx_arguments
@call const Duration::MAX = VX_FOREVER
@call std::env::current_dir = vx_current_dir
@call std::sync::mpsc::channel = vx_channel
@call std::mem::drop = vx_drop_sender
@call drop = vx_drop_sender
@call std::thread::sleep = vx_sleep
@call AtomicBool::new = VxFlag::new
@call const Ordering::Relaxed = VxOrder::Relaxed
@call const Ordering::Release = VxOrder::Release
@call const Ordering::Acquire = VxOrder::Acquire
@call const Ordering::AcqRel = VxOrder::AcqRel
@call const Ordering::SeqCst = VxOrder::SeqCst
@call u32::default = vx_zero_u32
@call u32::from = vx_u32_from_bool
@traitimpl impl Clone for Context
@source lib/src/parser.rs
only Source
@source lib/src/context.rs
@source cmd/src/command.rs
drop read
@source cmd/src/main.rs
drop parse_duration
drop verif_durations
@fn Context::default
    ensures fresh(r),
@fn Clone for Context::clone opt=method:clone=vx_to_owned
    ensures fork(*self, r),
@fn read_to_string external
    ensures r@ == source_text(path),
@fn writer opt=optmap,exact,panic,method:unwrap_or_default=vx_text_or_default
    ensures (match path { Some(p) => r is Some && r->0.file() == record_file(*p, thread), None => r is None }),
@fn handle_interrupt opt=work
    ensures final(vx_work).handlers() == old(vx_work).handlers().push(continuous.id()),
        final(vx_work).same_threads(*old(vx_work)), final(vx_work).same_channel(*old(vx_work)),
@fn handle_interrupt_thread0 opt=run
    ensures final(vx_run).stores() == old(vx_run).stores().push((continuous.id(), false, old(vx_run).slept())),
        final(vx_run).sent() == old(vx_run).sent(), final(vx_run).written() == old(vx_run).written(),
@fn eval external opt=console
    ensures exists|a: Context| (match context { Some(c) => a == c, None => fresh(a) }) && #[trigger] evaluated(text@, a, old(vx_out).buf@, r, final(vx_out).buf@),
@fn repl external opt=console
    ensures session(input_lines(), old(vx_out).buf@, final(vx_out).buf@),
@fn main opt=console,work
    requires old(vx_work).nothing(),
    ensures called(arguments(), old(vx_out).buf@, final(vx_out).buf@, *final(vx_work)),
@hint let#interface
    let ghost vx_i = interface;
    proof { if let Some(Commands::Test { duration, number, .. }) = vx_i.command {
        assert(lasting(duration) == (match duration { Some(t) => t, None => forever() })); assert(asked(duration, number) == (match duration { Some(_) => u32::MAX, None => number })); } }
@fn test opt=console,work,method:to_owned=vx_cloned,method:clone=vx_cloned,method:extend=extend,method:into_iter=vx_listed,method:unwrap_or=vx_path_or,method:remove=vx_remove
    requires old(vx_work).nothing(),
    ensures exists|d: VxPath| (path matches Some(p) ==> d == p) && #[trigger] tested(source_text(d), name, threads, duration, number, record, stat, old(vx_out).buf@, *final(vx_work)),
@hint entry
    let ghost (vx_o0, vx_name) = (vx_out.buf@, name);
@hint print#0
    proof {
        extends_self(context.records@);
        let src = program_of(text@)->0;
        assert(Map::<String, (String, Vec<Expr>)>::empty().union_prefer_right(src.requests) =~= src.requests);
        assert(set_up_fails(src, vx_o0)) by { assert(ev_block(src.exprs, 0, Value::Null, Map::empty(), src.requests, context.records@, At { n: 0, o: vx_o0 }).v is Error); }
        assert(tested(text@, vx_name, threads, duration, number, record, stat, vx_o0, *vx_work));
    }
@hint print#1
    proof { assert(tested(text@, vx_name, threads, duration, number, record, stat, vx_o0, *vx_work)); }
@hint let#tests
    let ghost (vx_src, vx_c, vx_p) = (program_of(text@)->0, context, vx_out.buf@);
    proof {
        extends_self(context.records@);
        assert(Map::<String, (String, Vec<Expr>)>::empty().union_prefer_right(vx_src.requests) =~= vx_src.requests);
        assert(set_up(vx_src, vx_c, vx_o0, vx_p));
    }
@loop 0
    invariant vx_c == context, vx_work.workers().len() == thread, vx_work.singles().len() == 0, vx_work.timers().len() == 0, vx_work.counters().len() == 0,
        vx_work.held(), sender.original(), sender.channel() == vx_work.channel(), receiver.channel() == vx_work.channel(), continuous.initially(),
        all_of(handles).len() == thread, forall|i: int| 0 <= i < thread ==> (#[trigger] all_of(handles)[i]).id() == vx_work.workers()[i].id,
        forall|i: int| 0 <= i < thread ==> is_worker(#[trigger] vx_work.workers()[i], i, vx_c, name@, test@, record, stat, continuous.id(), vx_work.channel()),
        threads > 0 ==> total(vx_work.workers(), thread as int) == shared(number, threads, thread as int),
@hint 0#before
    proof { if threads > 0 { shares(number, threads, 0); } }
@hint 0#begin
    let ghost vx_w = vx_work.workers();
    proof { shares(number, threads, thread as int); }
@hint 0#end
    proof { total_prefix(vx_w, vx_work.workers()[thread as int], thread as int); }
@hint 0#after
    proof { if threads > 0 { shares(number, threads, threads - 1); } }
@loop 1
    invariant vx_c == context, vx_n1 == vxit1.index@, lists(vxit1.seq(), vx_src.tests), vxit1.seq().len() <= usize::MAX,
        vx_work.singles().len() == vx_n1, vx_work.workers().len() == 0, vx_work.timers().len() == 0, vx_work.counters().len() == 0,
        vx_work.held(), sender.original(), sender.channel() == vx_work.channel(), receiver.channel() == vx_work.channel(),
        all_of(handles).len() == vx_n1, forall|i: int| 0 <= i < vx_n1 ==> (#[trigger] all_of(handles)[i]).id() == vx_work.singles()[i].id,
        forall|i: int| 0 <= i < vx_n1 ==> is_single(#[trigger] vx_work.singles()[i], i, vx_c, vxit1.seq()[i].0@, vxit1.seq()[i].1@, record, stat, vx_work.channel()),
@hint 2#before
    let ghost (vx_h, vx_w2) = (all_of(handles), *vx_work);
@loop 2
    invariant vxit2.seq() == vx_h, vx_work.same_threads(vx_w2), vx_work.channel() == vx_w2.channel(), !vx_work.held(),
        forall|i: int| 0 <= i < vxit2.index@ ==> vx_work.joined().contains((#[trigger] vx_h[i]).id()),
@hint exit
    proof {
        assert(vx_h.last().id() == vx_work.counters()[0].2);
        assert(counted(*vx_work, stat));
        assert forall|i: int| 0 <= i < vx_w2.workers().len() implies vx_work.joined().contains((#[trigger] vx_w2.workers()[i]).id) by { assert(vx_h[i].id() == vx_w2.workers()[i].id); }
        assert forall|i: int| 0 <= i < vx_w2.singles().len() implies vx_work.joined().contains((#[trigger] vx_w2.singles()[i]).id) by { assert(vx_h[i].id() == vx_w2.singles()[i].id); }
        match vx_name {
            Some(n) => { if vx_src.tests.contains_key(n) { assert(named(*vx_work, vx_c, n@, vx_src.tests[n]@, threads, duration, number, record, stat)); } }
            None => { assert(unnamed(*vx_work, vx_c, vx_src.tests, record, stat)); }
        }
        assert(tested(text@, vx_name, threads, duration, number, record, stat, vx_o0, *vx_work));
    }
@fn test_thread0 opt=console,run,method:as_ref=vx_as_ref
    requires context.records@.len() == 0,
    ensures exists|k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>| #[trigger] worked(test@, maximun, context, *old(vx_run), old(vx_out).buf@, *final(vx_run), final(vx_out).buf@, file_of_writer(writer), name@, thread, stat, sender.channel(), continuous.id(), k, cs, os, rs)
        && over(test@, maximun, *final(vx_run), continuous.id(), k, cs, os, rs),
@hint entry
    let ghost (vx_c0, vx_o0, vx_r0, vx_f0) = (context, vx_out.buf@, *vx_run, file_of_writer(writer));
    let ghost mut vx_r = *vx_run;
    let ghost mut vx_cs: Seq<Context> = seq![context];
    let ghost mut vx_os: Seq<Seq<char>> = seq![vx_out.buf@];
    let ghost mut vx_rs: Seq<Seq<Record>> = Seq::empty();
    proof { assert(rows_written(vx_f0, vx_rs, name@, thread) =~= Seq::empty()); assert(lots_sent(stat, sender.channel(), vx_rs) =~= Seq::empty());
        assert(vx_r0.written() =~= vx_r0.written() + Seq::empty()); assert(vx_r0.sent() =~= vx_r0.sent() + Seq::empty()); }
@loop 0
    invariant_except_break vx_r == *vx_run, context.records@.len() == 0, context == vx_cs[vx_rs.len() as int], number == vx_rs.len(), !stopped(test@, vx_rs.len() as int, vx_cs, vx_os, vx_rs),
    invariant vx_f0 == file_of_writer(writer),
        worked(test@, maximun, vx_c0, vx_r0, vx_o0, *vx_run, vx_out.buf@, vx_f0, name@, thread, stat, sender.channel(), continuous.id(), vx_rs.len() as int, vx_cs, vx_os, vx_rs),
    ensures over(test@, maximun, *vx_run, continuous.id(), vx_rs.len() as int, vx_cs, vx_os, vx_rs),
    decreases maximun - number,
@hint 0#begin
    let ghost (vx_a, vx_o, vx_k) = (context, vx_out.buf@, vx_rs.len() as int);
@hint let#result
    let ghost vx_e = context;
@hint let#records
    let ghost (vx_m, vx_p) = (records@, vx_out.buf@);
    proof { extends_self(vx_m); assert(vx_e.records@ == vx_m); assert(evaluates(test@, vx_a, vx_o, vx_m).n == At { n: vx_m.len() as int, o: vx_p }); }
@loop 1
    invariant records@ == vx_m, vx_out.buf@ == vx_p + record_lines(vx_m, vxit1.index@),
@hint 1#end
    proof { assert(vx_out.buf@ =~= vx_p + record_lines(vx_m, vxit1.index@ + 1)); }
@hint print#1
    proof {
        assert(vx_out.buf@ =~= line(evaluates(test@, vx_a, vx_o, vx_m).n.o + record_lines(vx_m, vx_m.len() as int), error@));
        assert(evaluates(test@, vx_a, vx_o, vx_m).v is Error);
        assert(one_run(test@, vx_a, vx_o, context, vx_out.buf@, vx_m));
        one_more(test@, maximun, vx_c0, vx_r0, vx_o0, vx_r, vx_o, vx_f0, name@, thread, stat, sender.channel(), continuous.id(), vx_k, vx_cs, vx_os, vx_rs, context, *vx_run, vx_out.buf@, vx_m);
        vx_cs = vx_cs.push(context); vx_os = vx_os.push(vx_out.buf@); vx_rs = vx_rs.push(vx_m); vx_r = *vx_run;
    }
@hint 0#end
    proof {
        assert(one_run(test@, vx_a, vx_o, context, vx_out.buf@, vx_m));
        one_more(test@, maximun, vx_c0, vx_r0, vx_o0, vx_r, vx_o, vx_f0, name@, thread, stat, sender.channel(), continuous.id(), vx_k, vx_cs, vx_os, vx_rs, context, *vx_run, vx_out.buf@, vx_m);
        vx_cs = vx_cs.push(context); vx_os = vx_os.push(vx_out.buf@); vx_rs = vx_rs.push(vx_m); vx_r = *vx_run;
    }
@hint exit
    proof { assert(worked(test@, maximun, vx_c0, vx_r0, vx_o0, *vx_run, vx_out.buf@, vx_f0, name@, thread, stat, sender.channel(), continuous.id(), vx_rs.len() as int, vx_cs, vx_os, vx_rs)); }
@fn test_thread1 opt=run
    ensures final(vx_run).stores() == old(vx_run).stores().push((continuous.id(), false, old(vx_run).slept() + duration.millis())),
@fn test_thread2 opt=console,run,method:as_ref=vx_as_ref
    requires context.records@.len() == 0,
    ensures exists|rs: Seq<Record>| #[trigger] once(test@, context, *old(vx_run), old(vx_out).buf@, *final(vx_run), final(vx_out).buf@, file_of_writer(writer), name@, thread as u32, stat, sender.channel(), rs),
@hint entry
    let ghost (vx_c0, vx_o0, vx_r0, vx_f0) = (context, vx_out.buf@, *vx_run, file_of_writer(writer));
    let ghost mut vx_t: Seq<char> = Seq::empty();
@hint 0#before
    let ghost (vx_m, vx_p) = (records@, vx_out.buf@);
    proof { extends_self(vx_m); }
@loop 0
    invariant records@ == vx_m, vx_out.buf@ == vx_p + record_lines(vx_m, vxit0.index@),
@hint 0#end
    proof { assert(vx_out.buf@ =~= vx_p + record_lines(vx_m, vxit0.index@ + 1)); }
@hint print#0
    proof { vx_t = error@; }
@hint exit
    proof {
        let run = evaluates(test@, vx_c0, vx_o0, vx_m);
        if run.v is Error { assert(vx_p =~= line(run.n.o, vx_t)); }
        assert(once(test@, vx_c0, vx_r0, vx_o0, *vx_run, vx_out.buf@, vx_f0, name@, thread as u32, stat, sender.channel(), vx_m));
    }
@fn test_thread3 opt=console,run,drain,exact
    requires old(vx_run).received().len() == 0,
    ensures counts(stat, *old(vx_run), old(vx_out).buf@, *final(vx_run), final(vx_out).buf@),
@loop 0
    invariant vx_all == vx_run.received(), all_summarised(stats.stats@, history(vx_run.received(), vx_run.received().len() as int)), vx_out.buf@ == old(vx_out).buf@,
    ensures vx_run.ended(),
    decreases vx_run.coming(),
@hint 0#begin
    let ghost (vx_d, vx_n) = (vx_run.received(), vx_run.received().len() - records@.len());
    proof { assert(vx_d.take(vx_n) =~= vx_all); history_prefix(vx_all, vx_d, vx_n); }
@loop 1
    invariant vx_d == vx_run.received(), vx_d.len() < 0x4_0000_0000_0000, vx_n + records@.len() == vx_d.len(), 0 <= vx_n, forall|i: int| 0 <= i < records@.len() ==> vx_d[vx_n + i] == #[trigger] records@[i],
        all_summarised(stats.stats@, history(vx_d, vx_n + vxit1.index@)),
@hint 1#begin
    let ghost (vx_s, vx_j) = (stats.stats@, vx_n + vxit1.index@);
    proof { assert(vx_d[vx_j] == *record); millis_bounded(record.time.total); countable(vx_s, vx_d, vx_j, record.name, record.time.total.millis()); }
@hint 1#end
    proof { stats_step(vx_s, stats.stats@, history(vx_d, vx_j), record.name, record.time.total.millis()); }
@hint 0#end
    proof { vx_all = vx_d; }
@hint 0#before
    let ghost mut vx_all = vx_run.received();
    proof { stats_empty(); }
