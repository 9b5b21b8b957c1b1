%verbatim
// ------------------------------------------------------------------ std::collections::VecDeque (reference implementation, verified; trusted to describe VecDeque)
pub struct VxDeque<T> { pub q: Vec<T> }
impl<T> VxDeque<T> {
    pub open spec fn view(&self) -> Seq<T> { self.q@ }
    pub fn new() -> (r: Self) ensures r@.len() == 0 { VxDeque { q: Vec::new() } }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { VxDeque { q: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.q.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.q.len() == 0 }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.q.push(x) }
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { self.q.insert(0, x); assert(self.q@ =~= seq![x] + old(self).q@); }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.drop_first(), r.is_none() ==> final(self)@ == old(self)@,
    { if self.q.len() == 0 { None } else { let x = self.q.remove(0); assert(self.q@ =~= old(self).q@.drop_first()); Some(x) } }
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures r.is_some() == (old(self)@.len() > 0), r.is_some() ==> r.unwrap() == old(self)@.last() && final(self)@ == old(self)@.drop_last(), r.is_none() ==> final(self)@ == old(self)@,
    { self.q.pop() }
}
