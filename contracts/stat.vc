@unit stat
@spec shim_core.rs text_base.rs stat_spec.rs
@method get_mut = vx_get_mut
@method to_owned = vx_to_owned
@traitimpl impl Display for Stat
@traitimpl impl Display for Stats
@source lib/src/stat.rs
@fn Stat::new
    ensures summarises(r, seq![millis]),
@hint entry
    proof { reveal_with_fuel(seq_sum, 3); assert(seq![millis].drop_last() =~= Seq::<u128>::empty()); }
@fn Stat::add
    requires old(self).count + 1 <= u128::MAX, old(self).sum + millis <= u128::MAX, old(self).min <= old(self).max,
    ensures stepped(*old(self), *final(self), millis),
@fn Stats::add
    requires fits(old(self).stats@, *name, millis),
    ensures observed(old(self).stats@, final(self).stats@, *name, millis),
@fn Display for Stat::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + stat_text(*self), r is Ok,
@fn Display for Stats::fmt opt=exact
    ensures exists|order: Seq<String>| #[trigger] each_once(self.stats@, order) && final(f).buf@ == old(f).buf@ + stat_lines(self.stats@, order, order.len() as int), r is Ok,
@loop 0
    invariant listing(self.stats@, vxit0.seq()),
        f.buf@ == old(f).buf@ + stat_lines(self.stats@, names(vxit0.seq()), vxit0.index@),
