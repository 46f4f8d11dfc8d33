// tickers
verus! {
pub type TickBeamId = usize;
//@type src/events/tick_beam.rs TickBeamHandle
//@type src/events/tick_beam.rs TickBeam
//@type src/events/tick_beam.rs Ticker
// what a beam does when n of its waits end without an interrupt: each one is followed by a tick
pub open spec fn ticks(n: nat, rx: int, tx: int, period: Duration, payload: int) -> Seq<Act> decreases n {
    if n == 0 { Seq::empty() } else {
        ticks((n - 1) as nat, rx, tx, period, payload).push(Act::Wait { chan: rx, period, interrupted: false }).push(Act::Send { chan: tx, what: payload })
    }
}
// all what's sent
pub open spec fn count_sends(l: Seq<Act>) -> int decreases l.len() {
    if l.len() == 0 { 0 } else { count_sends(l.drop_last()) + if l.last() is Send { 1int } else { 0 } }
}
pub proof fn ticks_count(n: nat, rx: int, tx: int, period: Duration, payload: int)
    ensures count_sends(ticks(n, rx, tx, period, payload)) == n, ticks(n, rx, tx, period, payload).len() == 2 * n,
    decreases n,
{
    reveal_with_fuel(count_sends, 3);
    if n > 0 {
        ticks_count((n - 1) as nat, rx, tx, period, payload);
        let t = ticks((n - 1) as nat, rx, tx, period, payload);
        let u = t.push(Act::Wait { chan: rx, period, interrupted: false });
        let s = Act::Send { chan: tx, what: payload };
        assert(u.push(s).drop_last() =~= u);
        assert(u.drop_last() =~= t);
    }
}
// C20: a beam which ended sent its payload as many times as asked, or was interrupted, what it sent being sent before
pub proof fn beam_counts(l0: Seq<Act>, l: Seq<Act>, count: Option<usize>, rx: int, tx: int, period: Duration, payload: int)
    requires beamed(l0, l, count, rx, tx, period, payload),
    ensures
        ({ let d = l.skip(l0.len() as int);
           ||| count matches Some(c) && count_sends(d) == c
           ||| d.len() > 0 && d.last() == (Act::Wait { chan: rx, period, interrupted: true }) && (count matches Some(c) ==> count_sends(d) < c) }),
{
    reveal_with_fuel(count_sends, 2);
    if count is Some && ticked(l0, l, count->Some_0 as nat, rx, tx, period, payload) {
        ticks_count(count->Some_0 as nat, rx, tx, period, payload);
        assert(l.skip(l0.len() as int) =~= ticks(count->Some_0 as nat, rx, tx, period, payload));
    } else {
        let n = choose|n: nat| (count matches Some(c) ==> n < c) && l == #[trigger] interrupted(l0, n, rx, tx, period, payload);
        ticks_count(n, rx, tx, period, payload);
        let t = ticks(n, rx, tx, period, payload);
        let w = Act::Wait { chan: rx, period, interrupted: true };
        assert(l.skip(l0.len() as int) =~= t.push(w));
        assert(t.push(w).drop_last() =~= t);
    }
}
// where a beam is: n ticks done, nothing else
pub open spec fn ticked(l0: Seq<Act>, l: Seq<Act>, n: nat, rx: int, tx: int, period: Duration, payload: int) -> bool {
    l == l0 + ticks(n, rx, tx, period, payload)
}
// a finished beam: all its ticks were sent, or it was interrupted after the ones of its uninterrupted waits
pub open spec fn beamed(l0: Seq<Act>, l: Seq<Act>, count: Option<usize>, rx: int, tx: int, period: Duration, payload: int) -> bool {
    ||| count matches Some(c) && ticked(l0, l, c as nat, rx, tx, period, payload)
    ||| exists|n: nat| (count matches Some(c) ==> n < c) && l == #[trigger] interrupted(l0, n, rx, tx, period, payload)
}
pub open spec fn interrupted(l0: Seq<Act>, n: nat, rx: int, tx: int, period: Duration, payload: int) -> Seq<Act> {
    (l0 + ticks(n, rx, tx, period, payload)).push(Act::Wait { chan: rx, period, interrupted: true })
}
impl<P> Ticker<P> {
    pub open spec fn wf(&self, w: World) -> bool {
        &&& forall|i: int| 0 <= i < self.beams@.len() ==> (#[trigger] self.beams@[i]).id < self.next_id && w.chans().contains(self.beams@[i].interrupt_sender.chan())
        &&& forall|i: int, j: int| 0 <= i < j < self.beams@.len() ==> (#[trigger] self.beams@[i]).id != (#[trigger] self.beams@[j]).id
            && self.beams@[i].interrupt_sender.chan() != self.beams@[j].interrupt_sender.chan()
        &&& w.guard() is None
        &&& w.chans().contains(self.tick_sender.chan())
        &&& self.tick_receiver.chan() == self.tick_sender.chan()
        &&& forall|i: int| 0 <= i < self.beams@.len() ==> (#[trigger] self.beams@[i]).interrupt_sender.chan() != self.tick_sender.chan()
    }
    pub open spec fn has(&self, h: TickBeamHandle) -> bool { exists|i: int| 0 <= i < self.beams@.len() && #[trigger] self.beams@[i] == h }
}
pub open spec fn stop_of(h: TickBeamHandle) -> Act { Act::Send { chan: h.interrupt_sender.chan(), what: pid(()) } }
pub open spec fn stops(b: Seq<TickBeamHandle>) -> Seq<Act> { b.map_values(|h: TickBeamHandle| stop_of(h)) }
//@fn src/events/tick_beam.rs TickBeamHandle::stop
//@rule method_with send send_in __w
//@sig (self, __w: &mut World)
//@spec
    requires old(__w).guard() is None,
    ensures final(__w).log() == old(__w).log().push(stop_of(self)), final(__w).same(old(__w)),
//@endfn
//@fn src/events/tick_beam.rs Ticker::new
//@rule call_with unbounded unbounded_in __w
//@sig (__w: &mut World) -> (r: Self)
//@spec
    requires old(__w).guard() is None,
    ensures r.beams@.len() == 0, r.wf(*final(__w)), final(__w).log() == old(__w).log(),
//@endfn
//@fn src/events/tick_beam.rs Ticker::stop_all_beams
//@rule method_with stop stop __w
//@sig (&mut self, __w: &mut World)
//@spec
    requires old(self).wf(*old(__w)),
    ensures final(self).beams@.len() == 0, final(self).wf(*final(__w)), final(self).next_id == old(self).next_id, final(self).tick_sender == old(self).tick_sender, final(self).tick_receiver == old(self).tick_receiver,
        final(__w).same(old(__w)),
        // each beam is told to stop
        final(__w).log() == old(__w).log() + stops(old(self).beams@),
//@at body-start
    let ghost b0 = self.beams@;
    let ghost l0 = __w.log();
    let ghost ch0 = __w.chans();
    proof { assert(stops(b0.take(0)) =~= Seq::empty()); assert(b0.take(b0.len() as int) =~= b0); assert(l0 + Seq::<Act>::empty() =~= l0); }
//@loop 0 it
    invariant self.beams@.len() == 0, it.seq() == b0, __w.chans() == ch0, __w.guard() is None, __w.log() == l0 + stops(b0.take(it.index@ as int)),
        self.next_id == old(self).next_id, self.tick_sender == old(self).tick_sender, self.tick_receiver == old(self).tick_receiver,
        old(self).wf(*old(__w)), ch0 == old(__w).chans(), b0 == old(self).beams@, l0 == old(__w).log(), b0.take(b0.len() as int) == b0,
//@at loop 0 start
    proof {
        let k = it.index@ as int;
        assert(b0.take(k + 1) =~= b0.take(k).push(b0[k]));
        assert(stops(b0.take(k + 1)) =~= stops(b0.take(k)).push(stop_of(b0[k])));
        assert((l0 + stops(b0.take(k))).push(stop_of(b0[k])) =~= l0 + stops(b0.take(k + 1)));
    }
//@endfn
//@fn src/events/tick_beam.rs Ticker::stop_beam
//@rule method_with stop stop __w
//@sig (&mut self, id: TickBeamId, __w: &mut World)
//@spec
    requires old(self).wf(*old(__w)),
    ensures final(self).wf(*final(__w)), final(self).next_id == old(self).next_id, final(self).tick_sender == old(self).tick_sender, final(self).tick_receiver == old(self).tick_receiver,
        final(__w).same(old(__w)),
        // the beam of this id, if any, is told to stop, and the other ones are left alone
        forall|i: int| 0 <= i < old(self).beams@.len() && (#[trigger] old(self).beams@[i]).id == id ==> final(__w).log() == old(__w).log().push(stop_of(old(self).beams@[i])),
        (forall|i: int| 0 <= i < old(self).beams@.len() ==> (#[trigger] old(self).beams@[i]).id != id) ==> final(__w).log() == old(__w).log(),
        forall|h: TickBeamHandle| #[trigger] final(self).has(h) <==> old(self).has(h) && h.id != id,
//@at body-start
    let ghost b0 = self.beams@;
//@loop 0 it
    invariant_except_break __acc1 is None, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] b0[i]).id != id,
    invariant self.beams@ == b0,
    ensures __acc1 matches Some(k) ==> k < b0.len() && b0[k as int].id == id,
        __acc1 is None ==> forall|i: int| 0 <= i < b0.len() ==> (#[trigger] b0[i]).id != id,
//@at body-end
    proof {
        let found = exists|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).id == id;
        let k = if found { choose|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).id == id } else { b0.len() as int };
        let n = b0.len() - 1;
        // the last one takes its place, or the following ones are shifted
        let swapped = found && self.beams@ == b0.update(k, b0[n]).drop_last();
        let shifted = found && self.beams@ == b0.remove(k);
        assert forall|h: TickBeamHandle| #[trigger] self.has(h) <==> old(self).has(h) && h.id != id by {
            if old(self).has(h) && h.id != id {
                let i = choose|i: int| 0 <= i < b0.len() && #[trigger] b0[i] == h;
                if swapped && i == n { assert(self.beams@[k] == h); } else if shifted && i > k { assert(self.beams@[i - 1] == h); } else { assert(self.beams@[i] == h); }
            }
            if self.has(h) {
                let i = choose|i: int| 0 <= i < self.beams@.len() && #[trigger] self.beams@[i] == h;
                if swapped && i == k { assert(b0[n] == h); } else if shifted && i >= k { assert(b0[i + 1] == h); } else { assert(b0[i] == h); }
            }
        }
    }
//@endfn
//@fn src/events/tick_beam.rs Ticker::start_beam
//@as beam_thread
//@rule spawned
//@rule method_with recv_timeout recv_timeout_in __w
//@rule method_with send send_in __w
//@sig (mission: TickBeam<P>, interrupt_receiver: Receiver<()>, tick_sender: Sender<P>, __w: &mut World)
//@attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(__w).guard() == Some(Guard { start: old(__w).log().len() as int, rx: interrupt_receiver.chan(), tx: tick_sender.chan(), period: mission.period, payload: pid(mission.payload) }),
    ensures beamed(old(__w).log(), final(__w).log(), mission.remaining_count, interrupt_receiver.chan(), tick_sender.chan(), mission.period, pid(mission.payload)),
//@at body-start
    let ghost mut n: nat = 0;
    let ghost l0 = __w.log();
    let ghost (rx, tx, pe, pa) = (interrupt_receiver.chan(), tick_sender.chan(), mission.period, pid(mission.payload));
    proof { assert(l0 + ticks(0, rx, tx, pe, pa) =~= l0); }
//@loop 0
    invariant_except_break
        ticked(l0, __w.log(), n, rx, tx, pe, pa), mission.remaining_count is Some == remaining_count is Some,
        mission.remaining_count matches Some(c) ==> remaining_count->Some_0 + n == c,
    invariant l0 == old(__w).log(), __w.guard() == Some(Guard { start: l0.len() as int, rx, tx, period: pe, payload: pa }), rx == interrupt_receiver.chan(), tx == tick_sender.chan(), pe == mission.period, pa == pid(mission.payload),
    ensures beamed(l0, __w.log(), mission.remaining_count, rx, tx, pe, pa),
//@at loop 0 start
    proof {
        let t = l0 + ticks(n, rx, tx, pe, pa);
        ticks_count(n, rx, tx, pe, pa);
        assert(n > 0 ==> t.last() == ticks(n, rx, tx, pe, pa).last());
        assert(t.push(Act::Wait { chan: rx, period: pe, interrupted: true }) == interrupted(l0, n, rx, tx, pe, pa));
        let n1 = (n + 1) as nat;
        assert(t.push(Act::Wait { chan: rx, period: pe, interrupted: false }).push(Act::Send { chan: tx, what: pa }) =~= l0 + ticks(n1, rx, tx, pe, pa));
    }
//@at loop 0 end
    proof { n = n + 1; }
//@endfn
//@fn src/events/tick_beam.rs Ticker::start_beam
//@rule call_with bounded bounded_in __w
//@rule spawn_call vrt_spawn_beam(__w, mission, interrupt_receiver, tick_sender)
//@sig (&mut self, __w: &mut World, mission: TickBeam<P>) -> (r: TickBeamId)
//@spec
    requires old(self).wf(*old(__w)), old(self).next_id < usize::MAX,
    ensures final(self).wf(*final(__w)), r == old(self).next_id, final(self).next_id == r + 1, final(self).tick_sender == old(self).tick_sender, final(self).tick_receiver == old(self).tick_receiver,
        final(self).beams@.len() == old(self).beams@.len() + 1, final(self).beams@.drop_last() == old(self).beams@, final(self).beams@.last().id == r,
        // a thread is started with this mission, which can be interrupted by the handle, its ticks coming to the receiver of the ticker
        final(__w).log() == old(__w).log().push(Act::Spawn { count: mission.remaining_count, period: mission.period, payload: pid(mission.payload),
            interrupt: final(self).beams@.last().interrupt_sender.chan(), ticks: old(self).tick_receiver.chan() }),
//@endfn
#[verifier::external_body]
pub fn vrt_spawn_beam<P>(w: &mut World, mission: TickBeam<P>, interrupt_receiver: Receiver<()>, tick_sender: Sender<P>)
    ensures final(w).same(old(w)),
        final(w).log() == old(w).log().push(Act::Spawn { count: mission.remaining_count, period: mission.period, payload: pid(mission.payload), interrupt: interrupt_receiver.chan(), ticks: tick_sender.chan() }),
{ unimplemented!() }
//@fn src/events/tick_beam.rs Ticker::tick_once
//@rule method_with start_beam start_beam __w
//@sig (&mut self, payload: P, after: Duration, __w: &mut World) -> (r: TickBeamId)
//@spec
    requires old(self).wf(*old(__w)), old(self).next_id < usize::MAX,
    ensures final(self).wf(*final(__w)), started(*old(self), *final(self), r, old(__w).log(), final(__w).log(), Some(1usize), after, pid(payload)),
//@endfn
//@fn src/events/tick_beam.rs Ticker::tick_several_times
//@rule method_with start_beam start_beam __w
//@sig (&mut self, payload: P, period: Duration, count: usize, __w: &mut World) -> (r: TickBeamId)
//@spec
    requires old(self).wf(*old(__w)), old(self).next_id < usize::MAX,
    ensures final(self).wf(*final(__w)), started(*old(self), *final(self), r, old(__w).log(), final(__w).log(), Some(count), period, pid(payload)),
//@endfn
//@fn src/events/tick_beam.rs Ticker::tick_infinitely
//@rule method_with start_beam start_beam __w
//@sig (&mut self, payload: P, period: Duration, __w: &mut World) -> (r: TickBeamId)
//@spec
    requires old(self).wf(*old(__w)), old(self).next_id < usize::MAX,
    ensures final(self).wf(*final(__w)), started(*old(self), *final(self), r, old(__w).log(), final(__w).log(), None, period, pid(payload)),
//@endfn
//@fn src/events/tick_beam.rs <Drop for Ticker>::drop
//@as vrt_drop
//@rule method_with stop_all_beams stop_all_beams __w
//@sig (&mut self, __w: &mut World)
//@spec
    requires old(self).wf(*old(__w)),
    ensures final(__w).log() == old(__w).log() + stops(old(self).beams@),
//@endfn
pub open spec fn started<P>(a: Ticker<P>, b: Ticker<P>, id: TickBeamId, l0: Seq<Act>, l: Seq<Act>, count: Option<usize>, period: Duration, payload: int) -> bool {
    &&& id == a.next_id && b.next_id == id + 1 && b.tick_sender == a.tick_sender && b.tick_receiver == a.tick_receiver
    &&& b.beams@.len() == a.beams@.len() + 1 && b.beams@.drop_last() == a.beams@ && b.beams@.last().id == id
    &&& l == l0.push(Act::Spawn { count, period, payload, interrupt: b.beams@.last().interrupt_sender.chan(), ticks: a.tick_receiver.chan() })
}
}
