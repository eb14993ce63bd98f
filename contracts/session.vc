@unit session
@rlimit 15
@includeext eval.vc
@spec session_spec.rs
@method is_empty = vx_is_empty
@method unwrap_or_default = vx_unwrap_or_default
@call stdin = vx_stdin
@call const std::io::ErrorKind::InvalidData = VxErrorKind::InvalidData
@source lib/src/parser.rs
only Source
@source cmd/src/command.rs
only repl
only eval
@fn Context::default
    ensures fresh(r),
@fn eval opt=console,method:extend=extend
    ensures exists|a: Context| (match context { Some(c) => a == c, None => fresh(a) }) && #[trigger] evaluated(text@, a, old(vx_out).buf@, r, final(vx_out).buf@),
@hint let#context
    let ghost vx_a = context;
    let ghost vx_o = vx_out.buf@;
@hint print#0
    proof { extends_self(context.records@); let run = ev_block(exprs@, 0, Value::Null, vx_a.inner@, context.requests@, context.records@, At { n: vx_a.records@.len() as int, o: vx_o });
        assert(run.v == Out::Value(value)); assert(vx_out.buf@ =~= line(run.n.o, show(value))); }
@hint print#1
    proof { extends_self(context.records@); let run = ev_block(exprs@, 0, Value::Null, vx_a.inner@, context.requests@, context.records@, At { n: vx_a.records@.len() as int, o: vx_o });
        assert(run.v is Error); assert(vx_out.buf@ =~= line(run.n.o, error@)); }
@hint print#2
    proof { assert(vx_out.buf@ =~= line(vx_o, error@)); }
@hint exit
    proof { assert(evaluated(text@, vx_a, vx_o, context, vx_out.buf@)); }
@fn repl opt=console,exact
    ensures session(input_lines(), old(vx_out).buf@, final(vx_out).buf@),
@hint let#lines
    let ghost vx_l = lines@;
@hint let#context
    let ghost mut vx_k: int = 0;
    let ghost mut vx_cs: Seq<Context> = seq![context];
    let ghost mut vx_os: Seq<Seq<char>> = seq![vx_out.buf@];
@loop 0
    invariant_except_break vx_iter0.rest() == vx_l.skip(vx_k), vx_cs[vx_k] == context,
    invariant vx_l == input_lines(),
        went(vx_l, vx_k, vx_cs, vx_os), fresh(vx_cs[0]), vx_os[0] == old(vx_out).buf@, vx_os[vx_k] == vx_out.buf@,
    ensures vx_k == vx_l.len() || ends(vx_l[vx_k]),
    decreases vx_iter0.rest().len(),
@hint 0#begin
    let ghost vx_p = passes(vx_l[vx_k]);
    proof { assert(line == vx_l[vx_k]); assert(vx_iter0.rest() =~= vx_l.skip(vx_k + 1));
        if !ends(vx_l[vx_k]) && passes(vx_l[vx_k]) { vx_cs = vx_cs.push(context); vx_os = vx_os.push(vx_out.buf@); vx_k = vx_k + 1; } }
@hint 0#end
    proof { if !vx_p { vx_cs = vx_cs.push(context); vx_os = vx_os.push(vx_out.buf@); vx_k = vx_k + 1; } }
