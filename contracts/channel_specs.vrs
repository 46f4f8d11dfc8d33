// crossbeam's channels and the clock: what's sent and waited for, in order
verus! {
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u64 }
// the value of a payload
pub uninterp spec fn pid<T>(v: T) -> int;
pub enum Act {
    Wait { chan: int, period: Duration, interrupted: bool },
    Send { chan: int, what: int },
    Spawn { count: Option<usize>, period: Duration, payload: int, interrupt: int, ticks: int },
}
// what a running beam may do at any time, even when it never ends: after a wait of its period, and only then, a tick
#[verifier::ext_equal]
pub struct Guard { pub start: int, pub rx: int, pub tx: int, pub period: Duration, pub payload: int }
// the history of what was done with the outside
#[verifier::external_body]
pub struct World { _p: core::marker::PhantomData<()> }
impl World {
    pub uninterp spec fn log(&self) -> Seq<Act>;
    // the channels made so far
    pub uninterp spec fn chans(&self) -> Set<int>;
    pub uninterp spec fn guard(&self) -> Option<Guard>;
    pub open spec fn same(&self, o: &World) -> bool { self.chans() == o.chans() && self.guard() == o.guard() }
    pub open spec fn may_send(&self, chan: int, what: int) -> bool {
        self.guard() matches Some(g) ==> self.log().len() > g.start && self.log().last() == (Act::Wait { chan: g.rx, period: g.period, interrupted: false }) && chan == g.tx && what == g.payload
    }
    pub open spec fn may_wait(&self, chan: int, period: Duration) -> bool {
        self.guard() matches Some(g) ==> (self.log().len() == g.start || self.log().last() == (Act::Send { chan: g.tx, what: g.payload })) && chan == g.rx && period == g.period
    }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct ChanError { _p: core::marker::PhantomData<()> }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    // (an error means that nobody can receive it)
    #[verifier::external_body]
    pub fn send_in(&self, w: &mut World, v: T) -> (r: Result<(), ChanError>)
        requires old(w).may_send(self.chan(), pid(v)),
        ensures final(w).log() == old(w).log().push(Act::Send { chan: self.chan(), what: pid(v) }), final(w).same(old(w)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.chan() == self.chan(),
    { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn recv_timeout_in(&self, w: &mut World, d: Duration) -> (r: Result<T, ChanError>)
        requires old(w).may_wait(self.chan(), d),
        ensures final(w).log() == old(w).log().push(Act::Wait { chan: self.chan(), period: d, interrupted: r is Ok }), final(w).same(old(w)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.chan() == self.chan(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn bounded_in<T>(w: &mut World, cap: usize) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.chan() == r.1.chan(), !old(w).chans().contains(r.0.chan()), final(w).chans() == old(w).chans().insert(r.0.chan()), final(w).log() == old(w).log(), final(w).guard() == old(w).guard(),
{ unimplemented!() }
#[verifier::external_body]
pub fn unbounded_in<T>(w: &mut World) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.chan() == r.1.chan(), !old(w).chans().contains(r.0.chan()), final(w).chans() == old(w).chans().insert(r.0.chan()), final(w).log() == old(w).log(), final(w).guard() == old(w).guard(),
{ unimplemented!() }
}
