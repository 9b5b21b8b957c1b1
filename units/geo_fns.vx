%verbatim
broadcast use {ax_grid, ax_nan, ax_quo, ax_quo_mono};
%file geometry
%enum Orientation
%struct Point derives=PartialEq
%struct Size
%struct Rect
%verbatim
// derive(PartialEq): the fields are compared
impl vstd::std_specs::cmp::PartialEqSpecImpl<Point> for Point { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &Point) -> bool { arbitrary() } }
impl PartialEq for Point {
    fn eq(&self, o: &Point) -> (r: bool) ensures self.ok() && o.ok() ==> r == (self.X() == o.X() && self.Y() == o.Y()) { self.x == o.x && self.y == o.y }
}
impl Point {
    pub open spec fn ok(self) -> bool { self.x.grid() && self.y.grid() && -PLIM() <= self.x.h() <= PLIM() && -PLIM() <= self.y.h() <= PLIM() }
    pub open spec fn X(self) -> int { self.x.h() }
    pub open spec fn Y(self) -> int { self.y.h() }
}
/// Coordinates the contracts speak about: up to 2^21 units.
pub open spec fn PLIM() -> int { 4194304 }
impl Rect {
    pub open spec fn ok(self) -> bool {
        &&& self.origin.ok() &&& self.size.width.grid() &&& self.size.height.grid()
        &&& 0 <= self.W() <= PLIM() &&& 0 <= self.H() <= PLIM()
        &&& self.X1() <= PLIM() &&& self.Y1() <= PLIM()
    }
    pub open spec fn X0(self) -> int { self.origin.x.h() }
    pub open spec fn Y0(self) -> int { self.origin.y.h() }
    pub open spec fn W(self) -> int { self.size.width.h() }
    pub open spec fn H(self) -> int { self.size.height.h() }
    pub open spec fn X1(self) -> int { self.X0() + self.W() }
    pub open spec fn Y1(self) -> int { self.Y0() + self.H() }
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn axis_parallel(a: Point, b: Point) -> bool { a.X() == b.X() || a.Y() == b.Y() }
/// The closed segment has a point in common with the closed rectangle (axis-parallel segments).
pub open spec fn seg_meets(r: Rect, a: Point, b: Point) -> bool {
    &&& imax(a.X(), b.X()) >= r.X0() &&& imin(a.X(), b.X()) <= r.X1()
    &&& imax(a.Y(), b.Y()) >= r.Y0() &&& imin(a.Y(), b.Y()) <= r.Y1()
}
pub open spec fn pt_inside(r: Rect, a: Point) -> bool { r.X0() < a.X() < r.X1() && r.Y0() < a.Y() < r.Y1() }
pub open spec fn seg_inside(r: Rect, a: Point, b: Point) -> bool { pt_inside(r, a) && pt_inside(r, b) }
%fn Point::new C14 C03 C04 C05
    ensures r.x == x, r.y == y,
%fn Point::zero C14 C04
    ensures r.ok(), r.X() == 0, r.Y() == 0,
%fn Point::orthogonal_direction C14 C12
    ensures
        self.ok() && to.ok() ==> r == (
            if to.X() < self.X() { Orientation::Left } else if to.X() > self.X() { Orientation::Right }
            else if to.Y() < self.Y() { Orientation::Up } else { Orientation::Down }),  // [C14]
%fn Size::new C14 C03 C04 C05
    ensures r.width == width, r.height == height,
%fn Rect::new C14 C03 C04 C05
    ensures r.origin == origin, r.size == size,
%fn Rect::min_x C14 C05 C12
    ensures r == self.origin.x,
%fn Rect::min_y C14 C05 C12
    ensures r == self.origin.y,
%fn Rect::mid_x C14 C05 C12
    ensures self.ok() && self.W() % 2 == 0 ==> r.grid() && r.h() == self.X0() + self.W() / 2,
%fn Rect::mid_y C14 C05 C12
    ensures self.ok() && self.H() % 2 == 0 ==> r.grid() && r.h() == self.Y0() + self.H() / 2,
%fn Rect::max_x C14 C05 C12
    ensures self.ok() ==> r.grid() && r.h() == self.X1(),
%fn Rect::max_y C14 C05 C12
    ensures self.ok() ==> r.grid() && r.h() == self.Y1(),
%fn Rect::width C14 C12
    ensures r == self.size.width,
%fn Rect::height C14 C12
    ensures r == self.size.height,
%fn Rect::inset_by C14 C08
    ensures
        self.ok() && dx.grid() && dy.grid() && -PLIM() <= 2 * dx.h() <= PLIM() && -PLIM() <= 2 * dy.h() <= PLIM() ==> {
            &&& r.origin.x.grid() &&& r.X0() == self.X0() + dx.h()
            &&& r.origin.y.grid() &&& r.Y0() == self.Y0() + dy.h()
            &&& r.size.width.grid() &&& r.W() == imax(self.W() - 2 * dx.h(), 0)
            &&& r.size.height.grid() &&& r.H() == imax(self.H() - 2 * dy.h(), 0)
        },
%fn Rect::contains_point C14 C08
    ensures
        self.ok() && point.ok() ==> r == (self.X0() <= point.X() <= self.X1() && self.Y0() <= point.Y() <= self.Y1()),
%fn Rect::intersects_line C14 C08
    ensures
        self.ok() && a.ok() && b.ok() && axis_parallel(*a, *b) ==> r == (seg_meets(*self, *a, *b) && !seg_inside(*self, *a, *b)),
%fn Rect::intersected_line C14 C08
    ensures
        self.ok() && a.ok() && b.ok() && axis_parallel(*a, *b) ==> r.is_some() == (seg_meets(*self, *a, *b) && !seg_inside(*self, *a, *b)),
%loop 1
    self.ok() && a.ok() && b.ok() ==> (vx_i1 == 0 ==> vx_a1.nan()) && (vx_i1 > 0 ==> vx_a1.num()),
    self.ok() && a.ok() && b.ok() ==> forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] vx_s1@[j]).val() <= vx_a1.val(),
    self.ok() && a.ok() && b.ok() ==> vx_i1 > 0 ==> exists|j: int| 0 <= j < vx_i1 && #[trigger] vx_s1@[j] == vx_a1,
%loop 2
    self.ok() && a.ok() && b.ok() ==> (vx_i2 == 0 ==> vx_a2.nan()) && (vx_i2 > 0 ==> vx_a2.num()),
    self.ok() && a.ok() && b.ok() ==> forall|j: int| 0 <= j < vx_i2 ==> (#[trigger] vx_s2@[j]).val() >= vx_a2.val(),
    self.ok() && a.ok() && b.ok() ==> vx_i2 > 0 ==> exists|j: int| 0 <= j < vx_i2 && #[trigger] vx_s2@[j] == vx_a2,
%loop 1 after
    assert(self.ok() && a.ok() && b.ok() ==> vx_s1@[0].val() <= vx_a1.val() && (vx_s1@.len() > 2 ==> vx_s1@[2].val() <= vx_a1.val()));
%loop 2 after
    assert(self.ok() && a.ok() && b.ok() ==> vx_s2@[0].val() >= vx_a2.val() && (vx_s2@.len() > 2 ==> vx_s2@[2].val() >= vx_a2.val()));
