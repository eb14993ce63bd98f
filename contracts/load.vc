@unit load
@spec shim_core.rs text_base.rs load_spec.rs
@type PathBuf = VxPath
@type std::io::Result = VxIoResult
@type std::io::Error = VxIoError
@call std::fs::read_dir = vx_read_dir
@call std::fs::read_to_string = vx_read_file
@call std::ffi::OsStr::new = vx_osstr
@method sort = vx_sort
@method sort_unstable = vx_sort
@method expect = vx_expect
@method push_str = vx_push_str
@method push = vx_push
@source cmd/src/command.rs
only read
only read_to_string
@fn read_to_string
    ensures r@ == program(path),
@fn read opt=resmap,optis
    ensures r is Ok ==> final(text)@ == old(text)@ + program(path),
    decreases fs_height(path),
@hint entry
    let ghost vx_in = text@;
@loop 0
    invariant_except_break vx_failed3 is None,
    invariant vxit0.seq().len() == fs_entries(path).len(),
        forall|i: int| 0 <= i < vxit0.seq().len() ==> (match #[trigger] vxit0.seq()[i] { Ok(e) => e.spec_path() == fs_entries(path)[i], Err(_) => true }),
        vx_failed3 is None ==> vx_acc1@ =~= fs_entries(path).take(vxit0.index@),
    ensures vx_failed3 is Some || vx_acc1@ == fs_entries(path),
@hint 1#before
    let ghost vx_e = entries@;
    proof { assert(vx_e == in_order(fs_entries(path))); assert(text@ + programs(vx_e, 0, fs_height(path)) == vx_in + program(path)); }
@loop 1
    invariant vxit1.seq() == vx_e, fs_is_dir(path), forall|i: int| 0 <= i < vx_e.len() ==> fs_entries(path).contains(#[trigger] vx_e[i]),
        text@ + programs(vx_e, vxit1.index@, fs_height(path)) == vx_in + program(path),
@hint 1#begin
    proof { assert(fs_entries(path).contains(vx_e[vxit1.index@])); reveal_with_fuel(programs, 2); }
    let ghost vx_t = text@;
@hint 1#end
    proof { assert(vx_t + (program(vx_e[vxit1.index@]) + programs(vx_e, vxit1.index@ + 1, fs_height(path))) =~= text@ + programs(vx_e, vxit1.index@ + 1, fs_height(path))); }
@hint 1#after
    proof { assert(text@ =~= vx_in + program(path)); }
