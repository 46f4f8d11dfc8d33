// the event source (types extracted from crossterm, crokey and strict)
use std::sync::Arc;
verus! {
//@type crossterm:src/event.rs MediaKeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs ModifierKeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs KeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs KeyEventKind derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseButton derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseEventKind derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseEvent derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs KeyEvent derive=Clone,Copy
//@type crossterm:src/event.rs Event
//@type strict:src/one_to_three.rs OneToThree
//@type crokey:src/key_combination.rs KeyCombination
// crossterm's bitflags
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct KeyModifiers { pub bits: u8 }
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct KeyEventState { pub bits: u8 }
impl KeyModifiers {
    pub const SHIFT: KeyModifiers = KeyModifiers { bits: 1 };
    pub const CONTROL: KeyModifiers = KeyModifiers { bits: 2 };
    pub const ALT: KeyModifiers = KeyModifiers { bits: 4 };
    pub const NONE: KeyModifiers = KeyModifiers { bits: 0 };
    pub fn intersects(&self, o: KeyModifiers) -> (r: bool) ensures r == (self.bits & o.bits != 0) { self.bits & o.bits != 0 }
    pub fn contains(&self, o: KeyModifiers) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
}
impl vstd::std_specs::ops::BitOrSpecImpl<KeyModifiers> for KeyModifiers {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: KeyModifiers) -> bool { true }
    open spec fn bitor_spec(self, o: KeyModifiers) -> KeyModifiers { KeyModifiers { bits: self.bits | o.bits } }
}
impl core::ops::BitOr for KeyModifiers {
    type Output = KeyModifiers;
    fn bitor(self, o: KeyModifiers) -> KeyModifiers { KeyModifiers { bits: self.bits | o.bits } }
}
// std: times and durations, in nanoseconds
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { _p: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u64 }
impl Instant {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub const fn from_millis(ms: u64) -> (r: Duration) ensures r.ns() == ms * 1_000_000 { Duration { _p: ms } }
    #[verifier::external_body]
    pub const fn from_secs(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000_000 { Duration { _p: s } }
}
pub uninterp spec fn dur(ns: int) -> Duration;
pub broadcast axiom fn dur_ns(n: int) ensures (#[trigger] dur(n)).ns() == n;
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { true }
    // (a difference which would be negative is zero)
    open spec fn sub_spec(self, o: Instant) -> Duration { dur(if self.ns() >= o.ns() { self.ns() - o.ns() } else { 0 }) }
}
impl core::ops::Sub for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, o: Instant) -> Duration { unimplemented!() }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
        Some(if self.ns() < o.ns() { core::cmp::Ordering::Less } else if self.ns() > o.ns() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal })
    }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> Option<core::cmp::Ordering> { unimplemented!() } }
//@const src/events/event_source.rs DOUBLE_CLICK_MAX_DURATION | DOUBLE_CLICK_MAX_DURATION.ns() == 700_000_000
//@type src/events/event_source.rs TimedClick
//@type src/events/event_source.rs EventSourceOptions
//@type src/events/timed_event.rs TimedEvent
//@type src/events/escape_sequence.rs EscapeSequence
// crokey: the combiner, whose state and answers are functions of what it's given
#[verifier::external_body]
pub struct Combiner { _p: u64 }
pub uninterp spec fn comb_next(st: int, key: KeyEvent) -> int;
pub uninterp spec fn comb_answer(st: int, key: KeyEvent) -> Option<KeyCombination>;
impl Combiner {
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body]
    pub fn transform(&mut self, key: KeyEvent) -> (r: Option<KeyCombination>)
        ensures final(self).st() == comb_next(old(self).st(), key), r == comb_answer(old(self).st(), key),
    { unimplemented!() }
}
// what must be done with the events read
pub ghost struct Src {
    pub pend: Option<Seq<KeyEvent>>, // the keys of a sequence which isn't ended
    pub comb: int,
    pub out: Seq<(Event, Option<KeyCombination>)>, // sent on the channel of events
    pub seqs: Seq<Seq<KeyEvent>>, // sent on the channel of sequences
}
pub open spec fn seq_start(k: KeyEvent) -> bool { k.code == KeyCode::Char('_') && k.modifiers == KeyModifiers::ALT }
pub open spec fn seq_end(k: KeyEvent) -> bool { k.code == KeyCode::Char('\\') && k.modifiers == KeyModifiers::ALT }
// keys typed with alt or control aren't part of sequences
pub open spec fn seq_key(k: KeyEvent) -> bool { k.modifiers.bits & 6u8 == 0 }
pub open spec fn emit_key(o: EventSourceOptions, s: Src, k: KeyEvent) -> Src {
    let c = comb_answer(s.comb, k);
    Src { comb: comb_next(s.comb, k), out: if o.discard_raw_key_events && c is None { s.out } else { s.out.push((Event::Key(k), c)) }, ..s }
}
pub open spec fn flush(o: EventSourceOptions, s: Src, p: Seq<KeyEvent>) -> Src decreases p.len() {
    if p.len() == 0 { s } else { emit_key(o, flush(o, s, p.drop_last()), p.last()) }
}
pub open spec fn discarded(o: EventSourceOptions, e: Event) -> bool {
    e matches Event::Mouse(m) && (o.discard_mouse_move && m.kind == MouseEventKind::Moved || o.discard_mouse_drag && m.kind is Drag)
}
pub open spec fn plain(o: EventSourceOptions, s: Src, e: Event) -> Src {
    match e {
        Event::Key(k) => emit_key(o, s, k),
        _ => if discarded(o, e) { s } else { Src { out: s.out.push((e, None)), ..s } },
    }
}
pub open spec fn see(o: EventSourceOptions, s: Src, e: Event) -> Src {
    match (s.pend, e) {
        (Some(p), Event::Key(k)) if seq_end(k) => Src { pend: None, seqs: s.seqs.push(p.push(k)), ..s },
        (Some(p), Event::Key(k)) if seq_key(k) => Src { pend: Some(p.push(k)), ..s },
        (Some(p), _) => plain(o, flush(o, Src { pend: None, ..s }, p), e),
        (None, Event::Key(k)) if seq_start(k) => Src { pend: Some(seq![k]), ..s },
        (None, _) => plain(o, s, e),
    }
}
// crossterm: the results of the successive reads of the terminal (None for an error)
pub struct Input { pub _p: u64 }
pub uninterp spec fn read_at(i: Input, k: int) -> Option<Event>;
pub open spec fn seen(o: EventSourceOptions, comb: int, i: Input, n: nat) -> Src decreases n {
    if n == 0 { Src { pend: None, comb, out: Seq::empty(), seqs: Seq::empty() } } else {
        let s = seen(o, comb, i, (n - 1) as nat);
        match read_at(i, n - 1) { Some(e) => see(o, s, e), None => s }
    }
}
// double clicks
pub open spec fn left_up(te: TimedEvent) -> bool { te.event matches Event::Mouse(m) && m.kind == MouseEventKind::Up(MouseButton::Left) }
pub open spec fn left_down(te: TimedEvent) -> bool { te.event matches Event::Mouse(m) && m.kind == MouseEventKind::Down(MouseButton::Left) }
pub open spec fn last_left_up(sent: Seq<TimedEvent>) -> Option<TimedEvent> decreases sent.len() {
    if sent.len() == 0 { None } else if left_up(sent.last()) { Some(sent.last()) } else { last_left_up(sent.drop_last()) }
}
pub open spec fn is_double(sent: Seq<TimedEvent>, te: TimedEvent) -> bool {
    &&& left_up(te) || left_down(te)
    &&& last_left_up(sent) matches Some(u)
        && te.event->Mouse_0.column == u.event->Mouse_0.column && te.event->Mouse_0.row == u.event->Mouse_0.row
        && te.time.ns() - u.time.ns() < 700_000_000
}
pub open spec fn clicked(u: Option<TimedClick>, sent: Seq<TimedEvent>) -> bool {
    match (u, last_left_up(sent)) {
        (Some(c), Some(te)) => c.time == te.time && c.x == te.event->Mouse_0.column && c.y == te.event->Mouse_0.row,
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn pending(q: Option<EscapeSequence>, p: Option<Seq<KeyEvent>>) -> bool {
    match (q, p) { (Some(a), Some(b)) => a.keys@ == b, (None, None) => true, _ => false }
}
pub open spec fn starts<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
pub proof fn flush_more(o: EventSourceOptions, s: Src, p: Seq<KeyEvent>, k: int)
    requires 0 <= k <= p.len(),
    ensures starts(flush(o, s, p.take(k)).out, flush(o, s, p).out), flush(o, s, p).seqs == s.seqs, flush(o, s, p).pend == s.pend,
    decreases p.len(),
{
    assert(p.take(p.len() as int) =~= p);
    let a = flush(o, s, p.take(k)).out;
    if p.len() > 0 {
        let d = p.drop_last();
        if k < p.len() {
            flush_more(o, s, d, k);
            assert(d.take(k) =~= p.take(k));
            let (b, c) = (flush(o, s, d).out, flush(o, s, p).out);
            assert(c.take(b.len() as int) =~= b);
            assert(c.take(a.len() as int) =~= b.take(a.len() as int));
        } else {
            flush_more(o, s, d, k - 1);
            assert(a =~= flush(o, s, p).out.take(a.len() as int));
        }
    } else { assert(a =~= flush(o, s, p).out.take(a.len() as int)); }
}
pub proof fn flush_one(o: EventSourceOptions, s: Src, p: Seq<KeyEvent>, k: int)
    requires 0 <= k < p.len(),
    ensures flush(o, s, p.take(k + 1)) == emit_key(o, flush(o, s, p.take(k)), p[k]),
{
    assert(p.take(k + 1).drop_last() =~= p.take(k));
}
pub proof fn plain_more(o: EventSourceOptions, s: Src, e: Event)
    ensures starts(s.out, plain(o, s, e).out), plain(o, s, e).seqs == s.seqs, plain(o, s, e).pend == s.pend,
{
    assert(s.out =~= plain(o, s, e).out.take(s.out.len() as int));
}
pub enum Gate { Free, Waiting, Closed }
// the outside, as the thread of an event source sees it
#[verifier::external_body]
pub struct World { _p: core::marker::PhantomData<()> }
impl World {
    pub uninterp spec fn options(&self) -> EventSourceOptions;
    pub uninterp spec fn comb0(&self) -> int;
    pub uninterp spec fn input(&self) -> Input;
    pub uninterp spec fn pos(&self) -> nat; // how many reads were done
    pub uninterp spec fn sent(&self) -> Seq<TimedEvent>;
    pub uninterp spec fn seqs(&self) -> Seq<Seq<KeyEvent>>;
    pub uninterp spec fn count(&self) -> int; // the shared count of events
    pub uninterp spec fn gate(&self) -> Gate;
    pub open spec fn fixed(&self, o: &World) -> bool { self.options() == o.options() && self.comb0() == o.comb0() && self.input() == o.input() }
    pub open spec fn goal(&self) -> Src { seen(self.options(), self.comb0(), self.input(), self.pos()) }
    // all what was sent up to now is a start of what must be
    pub open spec fn faithful(&self) -> bool {
        &&& self.sent().len() <= self.goal().out.len()
        &&& forall|i: int| 0 <= i < self.sent().len() ==> (#[trigger] self.sent()[i]).event == self.goal().out[i].0 && self.sent()[i].key_combination == self.goal().out[i].1
        &&& forall|i: int| 0 <= i < self.sent().len() ==> (#[trigger] self.sent()[i]).double_click == is_double(self.sent().take(i), self.sent()[i])
    }
    // nothing is missing
    pub open spec fn done(&self) -> bool {
        self.faithful() && self.sent().len() == self.goal().out.len() && self.seqs() == self.goal().seqs && self.count() == self.sent().len()
    }
    pub open spec fn may_send(&self, te: TimedEvent) -> bool {
        let (n, out) = (self.sent().len() as int, self.goal().out);
        n < out.len() && te.event == out[n].0 && te.key_combination == out[n].1 && te.double_click == is_double(self.sent(), te)
    }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[derive(Debug)]
pub struct ChanError { _p: core::marker::PhantomData<()> }
#[verifier::external_body]
pub struct AtomicUsize { _p: u64 }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub fn read_in(w: &mut World) -> (r: Result<Event, ChanError>)
    // nothing else is read before everything is sent and received
    requires old(w).gate() == Gate::Free, old(w).done(),
    ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos() + 1, final(w).sent() == old(w).sent(), final(w).seqs() == old(w).seqs(), final(w).count() == old(w).count(), final(w).gate() == Gate::Free,
        r matches Ok(e) ==> read_at(old(w).input(), old(w).pos() as int) == Some(e),
        r is Err ==> read_at(old(w).input(), old(w).pos() as int) is None,
{ unimplemented!() }
impl Sender<TimedEvent> {
    #[verifier::external_body]
    pub fn send_raw(&self, w: &mut World, te: TimedEvent) -> (r: Result<(), ChanError>)
        ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos(), final(w).sent() == old(w).sent().push(te), final(w).seqs() == old(w).seqs(), final(w).count() == old(w).count(),
            final(w).gate() == (if r is Ok { Gate::Waiting } else { Gate::Closed }),
    { unimplemented!() }
    // (verified)
    pub fn send_in(&self, w: &mut World, te: TimedEvent) -> (r: Result<(), ChanError>)
        requires old(w).gate() == Gate::Free, old(w).may_send(te), old(w).count() == old(w).sent().len() + 1,
        ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos(), final(w).sent() == old(w).sent().push(te), final(w).seqs() == old(w).seqs(), final(w).count() == old(w).count(),
            final(w).gate() == (if r is Ok { Gate::Waiting } else { Gate::Closed }),
            old(w).faithful() ==> final(w).faithful(), last_left_up(final(w).sent()) == (if left_up(te) { Some(te) } else { last_left_up(old(w).sent()) }),
    {
        let ghost w0 = *w;
        let r = self.send_raw(w, te);
        proof {
            let (a, b) = (w0.sent(), w.sent());
            assert(b.drop_last() =~= a);
            assert(b.take(a.len() as int) =~= a);
            assert forall|i: int| 0 <= i < a.len() implies #[trigger] b.take(i) == a.take(i) by { assert(b.take(i) =~= a.take(i)); }
            assert(w.goal() == w0.goal());
            if w0.faithful() {
                assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).double_click == is_double(b.take(i), b[i]) by {
                    if i < a.len() { assert(a[i].double_click == is_double(a.take(i), a[i])); assert(b.take(i) == a.take(i)); }
                }
            }
        }
        r
    }
}
impl Sender<EscapeSequence> {
    #[verifier::external_body]
    pub fn try_send_in(&self, w: &mut World, seq: EscapeSequence) -> (r: Result<(), ChanError>)
        requires old(w).gate() == Gate::Free, old(w).goal().seqs == old(w).seqs().push(seq.keys@),
        ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos(), final(w).sent() == old(w).sent(), final(w).seqs() == old(w).seqs().push(seq.keys@), final(w).count() == old(w).count(), final(w).gate() == Gate::Free,
    { unimplemented!() }
}
impl Receiver<bool> {
    #[verifier::external_body]
    pub fn recv_in(&self, w: &mut World) -> (r: Result<bool, ChanError>)
        requires old(w).gate() == Gate::Waiting,
        ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos(), final(w).sent() == old(w).sent(), final(w).seqs() == old(w).seqs(), final(w).count() == old(w).count(),
            final(w).gate() == (if r matches Ok(b) && !b { Gate::Free } else { Gate::Closed }),
    { unimplemented!() }
}
impl AtomicUsize {
    #[verifier::external_body]
    pub fn fetch_add_in(&self, w: &mut World, n: usize, o: Ordering) -> (r: usize)
        requires old(w).gate() == Gate::Free, n == 1, old(w).count() == old(w).sent().len(),
        ensures final(w).fixed(old(w)), final(w).pos() == old(w).pos(), final(w).sent() == old(w).sent(), final(w).seqs() == old(w).seqs(), final(w).count() == old(w).count() + n, final(w).gate() == Gate::Free,
    { unimplemented!() }
}
//@fn src/events/timed_event.rs TimedEvent::new
//@ret r
//@spec
    ensures r.event == event, !r.double_click, r.key_combination is None,
//@endfn
//@fn src/events/timed_event.rs TimedEvent::as_click
//@ret r
//@spec
    ensures r == (match self.event {
        Event::Mouse(m) if left_up(*self) && m.modifiers == KeyModifiers::NONE && !self.double_click => Some((m.column, m.row)),
        _ => None,
    }),
//@endfn
//@fn src/events/event_source.rs is_seq_start
//@ret r
//@spec
    ensures r == seq_start(key),
//@endfn
//@fn src/events/event_source.rs is_seq_end
//@ret r
//@spec
    ensures r == seq_end(key),
//@endfn
//@fn src/events/event_source.rs EventSource::with_options
//@as source_thread
//@free
//@rule spawned
//@rule inline_closures
//@rule call_with read read_in __w
//@rule method_with send send_in __w
//@rule method_with try_send try_send_in __w
//@rule method_with recv recv_in __w
//@rule method_with fetch_add fetch_add_in __w
//@sig (options: EventSourceOptions, mut combiner: Combiner, tx_events: Sender<TimedEvent>, tx_seqs: Sender<EscapeSequence>, rx_quit: Receiver<bool>, internal_event_count: Arc<AtomicUsize>, __w: &mut World)
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        old(__w).options() == options, old(__w).comb0() == combiner.st(), old(__w).pos() == 0, old(__w).sent().len() == 0, old(__w).seqs().len() == 0, old(__w).count() == 0,
        old(__w).gate() == Gate::Free,
    ensures
        // it stops only when it's told to, or when nobody can receive the events any more
        final(__w).gate() == Gate::Closed, final(__w).fixed(old(__w)), final(__w).faithful(),
//@at body-start
    broadcast use dur_ns;
    assert(2u8 | 4u8 == 6u8 && 4u8 | 2u8 == 6u8) by (bit_vector);
    let ghost w00 = *__w;
    proof { assert(__w.seqs() =~= Seq::empty()); }
//@at after assign current_escape_sequence 0
    proof { assert(current_escape_sequence->Some_0.keys@ =~= goal.pend->Some_0); }
//@loop 0
    invariant
        __w.gate() == Gate::Free, __w.done(), __w.fixed(&w00), w00.fixed(old(__w)), options == __w.options(),
        pending(current_escape_sequence, __w.goal().pend), combiner.st() == __w.goal().comb, clicked(last_up, __w.sent()),
        2u8 | 4u8 == 6u8, 4u8 | 2u8 == 6u8,
//@at loop 0 start
    broadcast use dur_ns;
    let ghost g0 = __w.goal();
//@at after let ct_event
    let ghost e = ct_event;
    let ghost w1 = *__w;
    let ghost goal = __w.goal();
    proof { assert(goal == see(options, g0, e)); }
//@at loop 1 before
    let ghost p = g0.pend->Some_0;
    let ghost s0 = Src { pend: None, ..g0 };
    proof {
        assert(goal == plain(options, flush(options, s0, p), e));
        assert(p.take(0) =~= Seq::empty());
        assert(p.take(p.len() as int) =~= p);
        flush_more(options, s0, p, 0);
        plain_more(options, flush(options, s0, p), e);
    }
//@loop 1 it
    invariant
        it.seq() == p, p.take(p.len() as int) == p, s0 == (Src { pend: None, ..g0 }), goal == plain(options, flush(options, s0, p), e), goal.seqs == g0.seqs,
        __w.gate() == Gate::Free, __w.fixed(&w00), w00.fixed(old(__w)), options == __w.options(), __w.goal() == goal, __w.faithful(), __w.count() == __w.sent().len(), __w.seqs() == g0.seqs,
        combiner.st() == flush(options, s0, p.take(it.index@ as int)).comb, __w.sent().len() == flush(options, s0, p.take(it.index@ as int)).out.len(), clicked(last_up, __w.sent()),
//@at loop 1 start
    proof {
        let k = it.index@ as int;
        flush_one(options, s0, p, k);
        flush_more(options, s0, p, k + 1);
        plain_more(options, flush(options, s0, p), e);
        let (a, b, c) = (flush(options, s0, p.take(k + 1)).out, flush(options, s0, p).out, goal.out);
        let n = __w.sent().len() as int;
        if n < a.len() { assert(a[n] == b[n]); assert(b[n] == c[n]); }
    }
//@endfn
// --- creation of a source
//@type src/events/event_source.rs EventSource
//@const src/events/event_source.rs ESCAPE_SEQUENCE_CHANNEL_SIZE
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: core::marker::PhantomData<()> }
pub ghost struct Thread { pub options: EventSourceOptions, pub comb: int, pub events: int, pub seqs: int, pub quit: int, pub count: int }
// the state of the process, as the creator of a source sees it
#[verifier::external_body]
pub struct Process { _p: core::marker::PhantomData<()> }
impl Process {
    pub uninterp spec fn raw(&self) -> bool; // is the terminal in raw mode
    pub uninterp spec fn threads(&self) -> Seq<Thread>;
    pub uninterp spec fn quits(&self) -> Seq<(int, bool)>; // what was sent to the quit channels
    pub uninterp spec fn listening(&self, chan: int) -> bool;
}
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() }
}
impl Sender<bool> {
    #[verifier::external_body]
    pub fn send_in(&self, p: &mut Process, quit: bool) -> (r: Result<(), ChanError>)
        ensures final(p).raw() == old(p).raw(), final(p).threads() == old(p).threads(), final(p).quits() == old(p).quits().push((self.chan(), quit)),
            old(p).listening(self.chan()) ==> r is Ok,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body]
pub fn bounded<T>(cap: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body]
pub fn enable_raw_mode_in(p: &mut Process) -> (r: Result<(), Error>)
    ensures r is Ok ==> final(p).raw(), final(p).threads() == old(p).threads(), final(p).quits() == old(p).quits(),
{ unimplemented!() }
#[verifier::external_body]
pub fn disable_raw_mode_in(p: &mut Process) -> (r: Result<(), Error>)
    ensures r is Ok ==> !final(p).raw(), final(p).threads() == old(p).threads(), final(p).quits() == old(p).quits(),
        r is Ok, // the terminal is still there
{ unimplemented!() }
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) requires n == 0 { unimplemented!() }
}
pub uninterp spec fn comb_init(combining: bool, mandate: bool) -> int;
impl Combiner {
    pub uninterp spec fn combining(&self) -> bool;
    pub uninterp spec fn mandate(&self) -> bool;
    #[verifier::external_body]
    pub fn default() -> (r: Combiner)
        ensures !r.combining(), r.mandate(), r.st() == comb_init(false, true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_combining(&mut self) -> (r: Result<bool, Error>)
        ensures final(self).mandate() == old(self).mandate(), r matches Ok(b) ==> final(self).combining() == b && final(self).st() == comb_init(b, old(self).mandate()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_mandate_modifier_for_multiple_keys(&mut self, mandate: bool)
        ensures final(self).combining() == old(self).combining(), final(self).mandate() == mandate, final(self).st() == comb_init(old(self).combining(), mandate),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vrt_spawn_source(p: &mut Process, options: EventSourceOptions, combiner: Combiner, tx_events: Sender<TimedEvent>, tx_seqs: Sender<EscapeSequence>, rx_quit: Receiver<bool>, count: Arc<AtomicUsize>)
    ensures final(p).raw() == old(p).raw(), final(p).quits() == old(p).quits(),
        final(p).threads() == old(p).threads().push(Thread { options, comb: combiner.st(), events: tx_events.chan(), seqs: tx_seqs.chan(), quit: rx_quit.chan(), count: count.id() }),
{ unimplemented!() }
//@fn src/events/event_source.rs EventSource::with_options
//@rule spawn_call vrt_spawn_source(__p, options, combiner, tx_events, tx_seqs, rx_quit, internal_event_count)
//@rule call_with enable_raw_mode enable_raw_mode_in __p
//@sig (__p: &mut Process, options: EventSourceOptions) -> (r: Result<Self, Error>)
//@spec
    ensures
        // one thread is started, with the given options, at the other end of the channels of the source
        r matches Ok(s) ==> {
            &&& final(__p).raw()
            &&& !options.combine_keys ==> !s.is_combining_keys
            &&& final(__p).threads() == old(__p).threads().push(Thread { options, comb: comb_init(s.is_combining_keys, options.mandate_modifier_for_multiple_keys),
                events: s.rx_events.chan(), seqs: s.rx_seqs.chan(), quit: s.tx_quit.chan(), count: s.event_count.id() })
        },
        r is Err ==> final(__p).threads() == old(__p).threads(),
//@endfn
//@fn src/events/event_source.rs <Default for EventSourceOptions>::default
//@as vrt_default
//@ret r
//@spec
    ensures !r.combine_keys, r.mandate_modifier_for_multiple_keys, r.discard_raw_key_events, r.discard_mouse_move, !r.discard_mouse_drag,
//@endfn
//@fn src/events/event_source.rs EventSource::supports_multi_key_combinations
//@ret r
//@spec
    ensures r == self.is_combining_keys,
//@endfn
//@fn src/events/event_source.rs EventSource::unblock
//@rule method_with send send_in __p
//@sig (&self, __p: &mut Process, quit: bool)
//@spec
    requires old(__p).listening(self.tx_quit.chan()),
    ensures final(__p).quits() == old(__p).quits().push((self.tx_quit.chan(), quit)), final(__p).threads() == old(__p).threads(), final(__p).raw() == old(__p).raw(),
//@endfn
//@fn src/events/event_source.rs EventSource::shared_event_count
//@ret r
//@spec
    ensures r.id() == self.event_count.id(),
//@endfn
//@fn src/events/event_source.rs EventSource::receiver
//@ret r
//@spec
    ensures r.chan() == self.rx_events.chan(),
//@endfn
//@fn src/events/event_source.rs EventSource::escape_sequence_receiver
//@ret r
//@spec
    ensures r.chan() == self.rx_seqs.chan(),
//@endfn
//@fn src/events/event_source.rs <Drop for EventSource>::drop
//@as vrt_drop
//@rule call_with disable_raw_mode disable_raw_mode_in __p
//@sig (&mut self, __p: &mut Process)
//@spec
    ensures !final(__p).raw(), final(__p).threads() == old(__p).threads(),
//@endfn
// --- consequences, for any sequence of reads
// the events read, errors excepted
pub open spec fn events(i: Input, n: nat) -> Seq<Event> decreases n {
    if n == 0 { Seq::empty() } else { match read_at(i, n - 1) { Some(e) => events(i, (n - 1) as nat).push(e), None => events(i, (n - 1) as nat) } }
}
pub open spec fn outs(s: Seq<(Event, Option<KeyCombination>)>) -> Seq<Event> { s.map_values(|x: (Event, Option<KeyCombination>)| x.0) }
pub open spec fn keys(p: Seq<KeyEvent>) -> Seq<Event> { p.map_values(|k: KeyEvent| Event::Key(k)) }
pub open spec fn pend_keys(s: Src) -> Seq<KeyEvent> { match s.pend { Some(p) => p, None => Seq::empty() } }
pub open spec fn total(q: Seq<Seq<KeyEvent>>) -> int decreases q.len() { if q.len() == 0 { 0 } else { total(q.drop_last()) + q.last().len() } }
// f gives the places of the elements of a in b
pub open spec fn places(f: Seq<int>, a: Seq<Event>, b: Seq<Event>) -> bool {
    &&& f.len() == a.len()
    &&& forall|j: int| 0 <= j < a.len() ==> 0 <= #[trigger] f[j] < b.len() && b[f[j]] == a[j]
    &&& forall|j: int, k: int| 0 <= j < k < a.len() ==> #[trigger] f[j] < #[trigger] f[k]
}
pub open spec fn in_order(a: Seq<Event>, b: Seq<Event>) -> bool { exists|f: Seq<int>| #[trigger] places(f, a, b) }
proof fn order_push(a: Seq<Event>, b: Seq<Event>, e: Event)
    requires in_order(a, b),
    ensures in_order(a, b.push(e)), in_order(a.push(e), b.push(e)),
{
    let f = choose|f: Seq<int>| #[trigger] places(f, a, b);
    assert(places(f, a, b.push(e)));
    assert(places(f.push(b.len() as int), a.push(e), b.push(e)));
}
proof fn order_start(a: Seq<Event>, c: Seq<Event>, b: Seq<Event>)
    requires in_order(a + c, b),
    ensures in_order(a, b),
{
    let f = choose|f: Seq<int>| #[trigger] places(f, a + c, b);
    let g = f.take(a.len() as int);
    assert forall|j: int| 0 <= j < a.len() implies 0 <= #[trigger] g[j] < b.len() && b[g[j]] == a[j] by { assert(g[j] == f[j]); assert((a + c)[j] == a[j]); }
    assert(places(g, a, b));
}
proof fn order_remove(a: Seq<Event>, x: Event, c: Seq<Event>, b: Seq<Event>)
    requires in_order(a + seq![x] + c, b),
    ensures in_order(a + c, b),
{
    let t = a + seq![x] + c;
    let f = choose|f: Seq<int>| #[trigger] places(f, t, b);
    let n = a.len() as int;
    let g = f.take(n) + f.skip(n + 1);
    assert forall|j: int| 0 <= j < (a + c).len() implies 0 <= #[trigger] g[j] < b.len() && b[g[j]] == (a + c)[j] by {
        let k = if j < n { j } else { j + 1 };
        assert(g[j] == f[k]);
        assert(t[k] == (a + c)[j]);
    }
    assert forall|j: int, k: int| 0 <= j < k < (a + c).len() implies #[trigger] g[j] < #[trigger] g[k] by {
        let (j1, k1) = (if j < n { j } else { j + 1 }, if k < n { k } else { k + 1 });
        assert(g[j] == f[j1] && g[k] == f[k1]);
    }
    assert(places(g, a + c, b));
}
proof fn flush_order(o: EventSourceOptions, s: Src, p: Seq<KeyEvent>, k: int, b: Seq<Event>)
    requires 0 <= k <= p.len(), in_order(outs(s.out) + keys(p), b),
    ensures in_order(outs(flush(o, s, p.take(k)).out) + keys(p.skip(k)), b),
        !o.discard_raw_key_events ==> flush(o, s, p.take(k)).out.len() == s.out.len() + k,
    decreases k,
{
    if k == 0 {
        assert(p.take(0) =~= Seq::empty());
        assert(p.skip(0) =~= p);
    } else {
        flush_order(o, s, p, k - 1, b);
        flush_one(o, s, p, k - 1);
        let (f, g) = (flush(o, s, p.take(k - 1)), flush(o, s, p.take(k)));
        let x = Event::Key(p[k - 1]);
        assert(keys(p.skip(k - 1)) =~= seq![x] + keys(p.skip(k)));
        assert(outs(f.out) + keys(p.skip(k - 1)) =~= outs(f.out) + seq![x] + keys(p.skip(k)));
        if g.out.len() > f.out.len() {
            assert(outs(g.out) + keys(p.skip(k)) =~= outs(f.out) + seq![x] + keys(p.skip(k)));
        } else {
            order_remove(outs(f.out), x, keys(p.skip(k)), b);
        }
    }
}
proof fn plain_order(o: EventSourceOptions, s: Src, e: Event, b: Seq<Event>)
    requires in_order(outs(s.out), b),
    ensures in_order(outs(plain(o, s, e).out), b.push(e)),
        !o.discard_raw_key_events && !discarded(o, e) ==> plain(o, s, e).out.len() == s.out.len() + 1,
{
    order_push(outs(s.out), b, e);
    let t = plain(o, s, e).out;
    if t.len() > s.out.len() { assert(outs(t) =~= outs(s.out).push(e)); }
}
// C19: what's sent as events, followed by the keys kept aside as they may be a sequence, is a part of what was read, in the order
// it was read, each event being there at most once; and when nothing is asked to be discarded, every event read is in it or in one
// of the sequences
pub proof fn delivered(o: EventSourceOptions, comb: int, i: Input, n: nat)
    ensures
        ({ let s = seen(o, comb, i, n);
           &&& in_order(outs(s.out) + keys(pend_keys(s)), events(i, n))
           &&& !o.discard_raw_key_events && !o.discard_mouse_move && !o.discard_mouse_drag ==> s.out.len() + pend_keys(s).len() + total(s.seqs) == events(i, n).len() }),
    decreases n,
{
    if n == 0 {
        let s = seen(o, comb, i, n);
        assert(places(Seq::empty(), outs(s.out) + keys(pend_keys(s)), events(i, n)));
    } else {
        let m = (n - 1) as nat;
        delivered(o, comb, i, m);
        let (s, t, b) = (seen(o, comb, i, m), seen(o, comb, i, n), events(i, m));
        if let Some(e) = read_at(i, n - 1) {
            let p = pend_keys(s);
            let a = outs(s.out);
            match (s.pend, e) {
                (Some(p), Event::Key(k)) if seq_end(k) => {
                    order_start(a, keys(p), b);
                    order_push(a, b, e);
                    assert(a + keys(pend_keys(t)) =~= a);
                    assert(t.seqs.drop_last() =~= s.seqs);
                }
                (Some(p), Event::Key(k)) if seq_key(k) => {
                    order_push(a + keys(p), b, e);
                    assert(a + keys(p.push(k)) =~= (a + keys(p)).push(e));
                }
                (Some(p), _) => {
                    let s0 = Src { pend: None, ..s };
                    flush_order(o, s0, p, p.len() as int, b);
                    assert(p.take(p.len() as int) =~= p);
                    let f = flush(o, s0, p);
                    assert(outs(f.out) + keys(p.skip(p.len() as int)) =~= outs(f.out));
                    plain_order(o, f, e, b);
                    plain_more(o, f, e);
                    flush_more(o, s0, p, 0);
                    assert(outs(t.out) + keys(pend_keys(t)) =~= outs(t.out));
                }
                (None, Event::Key(k)) if seq_start(k) => {
                    order_push(a + keys(p), b, e);
                    assert(a + keys(seq![k]) =~= (a + keys(p)).push(e));
                }
                (None, _) => {
                    assert(a + keys(p) =~= a);
                    plain_order(o, s, e, b);
                    plain_more(o, s, e);
                    assert(outs(t.out) + keys(pend_keys(t)) =~= outs(t.out));
                }
            }
        }
    }
}
}
