//! A world driven together with a set model of bodies, fixtures, joints, contacts and events.
//! Shared by C03 (contact existence), C04 (events) and C22 (filtering).
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct MB {
    pub b: B,
    pub ty: B2bodyType,
    pub enabled: bool,
    pub alive: bool,
}
pub struct MF {
    pub f: F,
    pub body: usize,
    pub sh: Sh,
    pub cat: u16,
    pub mask: u16,
    pub group: i16,
    pub sensor: bool,
    pub alive: bool,
}
pub struct MJ {
    pub j: J,
    pub a: usize,
    pub b: usize,
    pub collide: bool,
    pub alive: bool,
}
/// A shape child: fixture index, child index. Fixture user data is index + 1.
pub type Ch = (usize, usize);
pub type Fats = BTreeMap<Ch, [f32; 4]>;

pub struct WSim {
    pub w: W,
    pub rec: Rc<RefCell<Rec>>,
    pub bodies: Vec<MB>,
    pub fixtures: Vec<MF>,
    pub joints: Vec<MJ>,
    pub open: BTreeSet<Cid>,
    stale: BTreeMap<(Ch, Ch), ([f32; 4], [f32; 4])>,
    newc: bool,
    pub toi: bool,      // continuous physics may run extra collision passes
    pub check03: bool,
    pub check04: bool,
    pub custom: Option<fn(u32, u32) -> bool>,
}

pub fn overlap4(a: &[f32; 4], b: &[f32; 4]) -> bool {
    a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3]
}
fn arr(a: &B2AABB) -> [f32; 4] {
    [a.lower_bound.x, a.lower_bound.y, a.upper_bound.x, a.upper_bound.y]
}

pub fn rule(ca: u16, ma: u16, ga: i16, cb: u16, mb: u16, gb: i16) -> bool {
    if ga == gb && ga != 0 {
        ga > 0
    } else {
        ca & mb != 0 && cb & ma != 0
    }
}

/// Stored boxes of every proxy, from the public query interface. World and broad-phase
/// queries walk the same tree, so their reports pair up one to one.
pub fn fat_boxes(w: &W) -> Vec<(F, [f32; 4])> {
    let big = aabb(-BIG, -BIG, BIG, BIG);
    let mut fs = vec![];
    w.borrow().query_aabb(
        |f: F| {
            fs.push(f);
            true
        },
        big,
    );
    let cm = w.borrow().get_contact_manager();
    let bp = cm.borrow().get_broad_phase();
    let bp = bp.borrow();
    let mut ids = vec![];
    bp.query(
        |i: i32| {
            ids.push(i);
            true
        },
        big,
    );
    assert_eq!(fs.len(), ids.len(), "world query and broad-phase query disagree");
    fs.into_iter().zip(ids).map(|(f, i)| (f, arr(&bp.get_fat_aabb(i)))).collect()
}

impl WSim {
    pub fn new(gx: f32, gy: f32) -> WSim {
        let w = world(gx, gy);
        let rec = listen(&w);
        WSim { w, rec, bodies: vec![], fixtures: vec![], joints: vec![], open: BTreeSet::new(), stale: BTreeMap::new(), newc: false, toi: true, check03: true, check04: true, custom: None }
    }
    pub fn body(&mut self, ty: B2bodyType, x: f32, y: f32) -> usize {
        let b = body(&self.w, ty, x, y, 0.0);
        self.bodies.push(MB { b, ty, enabled: true, alive: true });
        self.bodies.len() - 1
    }
    pub fn fixture(&mut self, body: usize, sh: Sh, sensor: bool) -> usize {
        self.fixture_f(body, sh, sensor, 1, 0xffff, 0)
    }
    pub fn fixture_f(&mut self, body: usize, sh: Sh, sensor: bool, cat: u16, mask: u16, group: i16) -> usize {
        let mut d = fdef(&sh);
        d.user_data = Some(self.fixtures.len() as u32 + 1);
        d.is_sensor = sensor;
        d.filter.category_bits = cat;
        d.filter.mask_bits = mask;
        d.filter.group_index = group;
        let f = B2body::create_fixture(self.bodies[body].b.clone(), &d);
        self.fixtures.push(MF { f, body, sh, cat, mask, group, sensor, alive: true });
        self.newc = true;
        self.fixtures.len() - 1
    }
    fn untouch(&mut self, fi: usize) {
        self.stale.retain(|k, _| k.0 .0 != fi && k.1 .0 != fi);
    }
    fn untouch_body(&mut self, b: usize) {
        for i in 0..self.fixtures.len() {
            if self.fixtures[i].body == b {
                self.untouch(i);
            }
        }
    }
    pub fn destroy_fixture(&mut self, fi: usize) {
        let b = self.bodies[self.fixtures[fi].body].b.clone();
        B2body::destroy_fixture(b, self.fixtures[fi].f.clone());
        self.fixtures[fi].alive = false;
    }
    pub fn destroy_body(&mut self, b: usize) {
        self.w.borrow_mut().destroy_body(self.bodies[b].b.clone());
        self.bodies[b].alive = false;
        for f in &mut self.fixtures {
            if f.body == b {
                f.alive = false;
            }
        }
        for j in &mut self.joints {
            if j.a == b || j.b == b {
                j.alive = false;
            }
        }
    }
    pub fn set_enabled(&mut self, b: usize, flag: bool) {
        B2body::set_enabled(self.bodies[b].b.clone(), flag);
        if flag && !self.bodies[b].enabled {
            self.newc = true;
            self.untouch_body(b);
        }
        self.bodies[b].enabled = flag;
    }
    pub fn set_type(&mut self, b: usize, ty: B2bodyType) {
        B2body::set_type(self.bodies[b].b.clone(), ty);
        if self.bodies[b].ty != ty {
            self.untouch_body(b);
        }
        self.bodies[b].ty = ty;
    }
    pub fn set_transform(&mut self, b: usize, x: f32, y: f32, a: f32) {
        self.bodies[b].b.borrow_mut().set_transform(v(x, y), a);
        self.newc = true;
    }
    pub fn set_filter(&mut self, fi: usize, cat: u16, mask: u16, group: i16) {
        let f = &mut self.fixtures[fi];
        f.cat = cat;
        f.mask = mask;
        f.group = group;
        let mut d = B2filter::default();
        d.category_bits = cat;
        d.mask_bits = mask;
        d.group_index = group;
        f.f.borrow_mut().set_filter_data(d);
        self.untouch(fi);
    }
    pub fn joint(&mut self, a: usize, b: usize, collide: bool) {
        let mut d = B2revoluteJointDef::<U>::default();
        d.base.body_a = Some(self.bodies[a].b.clone());
        d.base.body_b = Some(self.bodies[b].b.clone());
        d.base.collide_connected = collide;
        let pa = self.bodies[a].b.borrow().get_position();
        let pb = self.bodies[b].b.borrow().get_position();
        let mid = 0.5 * (pa + pb);
        d.local_anchor_a = self.bodies[a].b.borrow().get_local_point(mid);
        d.local_anchor_b = self.bodies[b].b.borrow().get_local_point(mid);
        let j = self.w.borrow_mut().create_joint(&B2JointDefEnum::RevoluteJoint(d));
        self.joints.push(MJ { j, a, b, collide, alive: true });
    }
    pub fn destroy_joint(&mut self, ji: usize) {
        self.w.borrow_mut().destroy_joint(self.joints[ji].j.clone());
        self.joints[ji].alive = false;
        if !self.joints[ji].collide {
            // nothing re-examines the freed pairs until one of the boxes changes
            let fats = match self.fats() {
                Ok(f) => f,
                Err(_) => return,
            };
            let (a, b) = (self.joints[ji].a, self.joints[ji].b);
            for (ka, fa) in &fats {
                for (kb, fb) in &fats {
                    let (ba, bb) = (self.fixtures[ka.0].body, self.fixtures[kb.0].body);
                    if ka < kb && ((ba == a && bb == b) || (ba == b && bb == a)) {
                        self.stale.insert((*ka, *kb), (*fa, *fb));
                    }
                }
            }
        }
    }
    pub fn shift(&mut self, x: f32, y: f32) -> R {
        let before = self.fats()?;
        self.w.borrow().shift_origin(v(x, y));
        let after = self.fats()?;
        self.stale.retain(|k, s| before.get(&k.0) == Some(&s.0) && before.get(&k.1) == Some(&s.1));
        for (k, s) in self.stale.iter_mut() {
            *s = (after[&k.0], after[&k.1]);
        }
        Ok(())
    }
    pub fn set_awake(&mut self, b: usize, flag: bool) {
        self.bodies[b].b.borrow_mut().set_awake(flag);
    }
    pub fn set_sensor(&mut self, fi: usize, flag: bool) {
        self.fixtures[fi].sensor = flag;
        self.fixtures[fi].f.borrow_mut().set_sensor(flag);
    }

    /// Stored boxes by child.
    pub fn fats(&self) -> Result<Fats, String> {
        let mut per: BTreeMap<usize, Vec<[f32; 4]>> = BTreeMap::new();
        for (f, b) in fat_boxes(&self.w) {
            let ud = f.borrow().get_user_data().unwrap_or(0) as usize;
            ensure!(ud >= 1 && ud <= self.fixtures.len() && same(&self.fixtures[ud - 1].f, &f), "query reports an unknown fixture {}", ud);
            per.entry(ud - 1).or_default().push(b);
        }
        let mut out = Fats::new();
        for (i, f) in self.fixtures.iter().enumerate() {
            let want = if f.alive && self.bodies[f.body].enabled { f.sh.children() } else { 0 };
            let mut have = per.remove(&i).unwrap_or_default();
            ensure!(have.len() == want, "fixture {} has {} proxies, expected {}", i + 1, have.len(), want);
            for c in 0..want {
                // children of a chain are told apart by their tight boxes
                let bx = f.sh.core(c).at(&X::from(&self.bodies[f.body].b.borrow().get_transform())).bounds();
                let t = [bx.0.x as f32 + 1e-4, bx.0.y as f32 + 1e-4, bx.1.x as f32 - 1e-4, bx.1.y as f32 - 1e-4];
                let d = |b: &[f32; 4]| (b[0] + b[2] - t[0] - t[2]).abs() + (b[1] + b[3] - t[1] - t[3]).abs();
                let k = (0..have.len()).min_by(|x, y| d(&have[*x]).partial_cmp(&d(&have[*y])).unwrap()).unwrap();
                let b = have.remove(k);
                ensure!(b[0] <= t[0] && b[1] <= t[1] && b[2] >= t[2] && b[3] >= t[3], "stored box {:?} of fixture {} child {} does not enclose {:?}", b, i + 1, c, t);
                out.insert((i, c), b);
            }
        }
        Ok(out)
    }
    pub fn joint_forbids(&self, a: usize, b: usize) -> bool {
        self.joints.iter().any(|j| j.alive && !j.collide && ((j.a == a && j.b == b) || (j.a == b && j.b == a)))
    }
    /// May the two fixtures collide at all, by types, joints and filter?
    pub fn permitted(&self, i: usize, j: usize) -> bool {
        let (f, g) = (&self.fixtures[i], &self.fixtures[j]);
        if !f.alive || !g.alive || f.body == g.body {
            return false;
        }
        let (a, b) = (&self.bodies[f.body], &self.bodies[g.body]);
        if !a.enabled || !b.enabled || (a.ty != DY && b.ty != DY) || self.joint_forbids(f.body, g.body) {
            return false;
        }
        // edges and chains have no contact with one another
        let thin = |s: &Sh| s.is_edge() || s.is_chain();
        if thin(&f.sh) && thin(&g.sh) {
            return false;
        }
        match self.custom {
            Some(c) => c(i as u32 + 1, j as u32 + 1),
            None => rule(f.cat, f.mask, f.group, g.cat, g.mask, g.group),
        }
    }
    pub fn cid_of(a: Ch, b: Ch) -> Cid {
        let x = (a.0 as u32 + 1, a.1 as i32);
        let y = (b.0 as u32 + 1, b.1 as i32);
        if x <= y {
            (x.0, x.1, y.0, y.1)
        } else {
            (y.0, y.1, x.0, x.1)
        }
    }
    fn active(&self, b: usize) -> bool {
        self.bodies[b].ty != ST && self.bodies[b].b.borrow().is_awake()
    }

    /// Lists and counts that must agree at any time.
    pub fn consistent(&mut self) -> R {
        let cs = contacts(&self.w);
        ensure!(cs.len() == self.w.borrow().get_contact_count(), "contact count {} but {} in the list", self.w.borrow().get_contact_count(), cs.len());
        let mut set = BTreeSet::new();
        for (id, _, _) in &cs {
            ensure!(set.insert(*id), "two contacts for {:?}", id);
            for u in [id.0, id.2] {
                let k = u as usize;
                ensure!(k >= 1 && k <= self.fixtures.len() && self.fixtures[k - 1].alive, "contact {:?} of a dead fixture", id);
                ensure!(self.bodies[self.fixtures[k - 1].body].enabled, "contact {:?} of a disabled body", id);
            }
            ensure!((id.1 as usize) < self.fixtures[id.0 as usize - 1].sh.children() && (id.3 as usize) < self.fixtures[id.2 as usize - 1].sh.children(), "contact {:?} child index out of range", id);
        }
        // the bodies' own lists
        for (bi, b) in self.bodies.iter().enumerate() {
            let mut mine = BTreeSet::new();
            for e in b.b.borrow().get_contact_list().iter() {
                let e = e.borrow();
                let c = e.contact.upgrade();
                ensure!(c.is_some(), "body contact list holds a dead contact");
                let c = c.unwrap();
                let c = c.borrow();
                let id = cid(c.get_base());
                ensure!(b.alive, "dead body has contacts");
                ensure!(mine.insert(id), "contact {:?} twice in body list", id);
                let (ba, bb) = (self.fixtures[id.0 as usize - 1].body, self.fixtures[id.2 as usize - 1].body);
                ensure!(ba == bi || bb == bi, "contact {:?} in the list of body {}", id, bi);
                let o = if ba == bi { bb } else { ba };
                let other = e.other.upgrade();
                ensure!(other.is_some() && same(&other.unwrap(), &self.bodies[o].b), "contact {:?}: wrong other body", id);
            }
            let want: BTreeSet<Cid> = set.iter().filter(|id| self.fixtures[id.0 as usize - 1].body == bi || self.fixtures[id.2 as usize - 1].body == bi).cloned().collect();
            ensure!(mine == want, "body {} lists {:?}, world lists {:?}", bi, mine, want);
        }
        if self.check04 {
            self.events()?;
            let touching: BTreeSet<Cid> = cs.iter().filter(|c| c.1).map(|c| c.0).collect();
            ensure!(touching == self.open, "touching {:?}, begun and not ended {:?}", touching, self.open);
        }
        Ok(())
    }
    /// Consume begin/end events: strict alternation.
    fn events(&mut self) -> R {
        let evs: Vec<Ev> = self.rec.borrow().ev.clone();
        self.rec.borrow_mut().ev.clear();
        for e in evs {
            match e {
                Ev::Begin(id, t) => {
                    ensure!(self.open.insert(id), "second begin for {:?}", id);
                    ensure!(t, "begin of {:?} while not touching", id);
                }
                Ev::End(id, _) => {
                    ensure!(self.open.remove(&id), "end without begin for {:?}", id);
                }
                _ => {}
            }
        }
        Ok(())
    }

    pub fn step(&mut self, dt: f32, c: &mut Ctx) -> R {
        self.consistent()?;
        let pre_fat = self.fats()?;
        let pre: BTreeMap<Cid, (bool, bool)> = contacts(&self.w).into_iter().map(|(i, t, e)| (i, (t, e))).collect();
        let act: Vec<bool> = (0..self.bodies.len()).map(|b| self.bodies[b].alive && self.active(b)).collect();
        let xfs: Vec<X> = self.bodies.iter().map(|b| X::from(&b.b.borrow().get_transform())).collect();
        let newc = self.newc;
        self.newc = false;
        step(&self.w, dt);
        c.step(1);
        let post_fat = self.fats()?;
        let evs: Vec<Ev> = self.rec.borrow().ev.clone();
        self.consistent()?;
        let now: BTreeMap<Cid, (bool, bool)> = contacts(&self.w).into_iter().map(|(i, t, e)| (i, (t, e))).collect();
        let mut points: BTreeMap<Cid, usize> = BTreeMap::new();
        for x in self.w.borrow().get_contact_list().iter() {
            let x = x.borrow();
            points.insert(cid(x.get_base()), x.get_base().get_manifold().point_count);
        }
        let mut h = Fnv::new();
        let keys: Vec<Ch> = post_fat.keys().cloned().collect();
        for x in 0..keys.len() {
            for y in x + 1..keys.len() {
                let (ka, kb) = (keys[x], keys[y]);
                let (ba, bb) = (self.fixtures[ka.0].body, self.fixtures[kb.0].body);
                let id = WSim::cid_of(ka, kb);
                let ok = self.permitted(ka.0, kb.0);
                let ov0 = overlap4(&pre_fat[&ka], &pre_fat[&kb]);
                let ov1 = overlap4(&post_fat[&ka], &post_fat[&kb]);
                let was_active = act[ba] || act[bb];
                h.u(id.0 as u64).u(id.2 as u64).b(now.contains_key(&id)).b(ov1).b(ok);
                c.eval(1);
                if self.check03 {
                    if now.contains_key(&id) {
                        ensure!(ok, "contact {:?} exists between fixtures that may not collide", id);
                        if was_active && !self.toi {
                            ensure!(ov0 || ov1, "contact {:?} survives a step in which the boxes never overlapped", id);
                        }
                    } else if ok && ov1 && (dt > 0.0 || newc) {
                        let blocked = dt <= 0.0 && pre.contains_key(&id); // destroyed by this very step
                        let stale = self.stale.get(&(ka, kb)).map_or(false, |s| s.0 == post_fat[&ka] && s.1 == post_fat[&kb]);
                        let touched_only = dt <= 0.0; // touched proxies are looked at by the next real step
                        ensure!(blocked || stale || touched_only, "no contact {:?} although the stored boxes overlap and collision is permitted", id);
                    }
                }
                if self.check04 && !self.toi {
                    let existed = pre.contains_key(&id) || (newc && now.contains_key(&id) && ov0 && !self.stale.contains_key(&(ka, kb)));
                    let sensor = self.fixtures[ka.0].sensor || self.fixtures[kb.0].sensor;
                    let examined = was_active && ov0 && ok && existed;
                    let pres = evs.iter().filter(|e| matches!(e, Ev::Pre(i, _) if *i == id)).count();
                    let posts = evs.iter().filter(|e| matches!(e, Ev::Post(i, _) if *i == id)).count();
                    let touching = now.get(&id).map_or(false, |t| t.0);
                    h.b(touching).u(pres as u64).u(posts as u64);
                    if examined {
                        let ca = self.fixtures[ka.0].sh.core(ka.1).at(&xfs[ba]);
                        let cb = self.fixtures[kb.0].sh.core(kb.1).at(&xfs[bb]);
                        let sep = core_sep(&ca, &cb).0;
                        let rr = ca.r + cb.r;
                        let both_poly = ca.v.len() > 1 && cb.v.len() > 1;
                        // polygons may or may not touch when only their skins meet
                        let (lo, hi) = if sensor { (rr - 1e-4, rr + 1e-4) } else if both_poly { (-1e-4, rr * 1.5 + 1e-4) } else { (rr - 1e-4, rr + 1e-4) };
                        let one_sided = [ka, kb].iter().any(|k| matches!(self.fixtures[k.0].sh, Sh::Chain(..) | Sh::Loop(..) | Sh::EdgeOne(..)));
                        if sep < lo && !(one_sided && !sensor) {
                            ensure!(touching, "{:?} overlaps by {} at the start of the step but is not touching", id, lo - sep);
                        }
                        if sep > hi {
                            ensure!(!touching, "{:?} is {} apart at the start of the step but touching", id, sep - rr);
                        }
                        ensure!(pres == (touching && !sensor) as usize, "{} pre-solve calls for {:?}, touching {} sensor {}", pres, id, touching, sensor);
                        ensure!((points.get(&id).map_or(0, |n| *n) > 0) == (touching && !sensor), "{:?}: {:?} contact points, touching {} sensor {}", id, points.get(&id), touching, sensor);
                        let disabled = self.rec.borrow().disable.contains(&id);
                        let dyn_awake = (act[ba] && self.bodies[ba].ty == DY) || (act[bb] && self.bodies[bb].ty == DY);
                        if dt > 0.0 && touching && !sensor && !disabled && dyn_awake {
                            ensure!(posts == 1, "{} post-solve calls for {:?}", posts, id);
                        }
                        ensure!(now.get(&id).map_or(true, |t| t.1 != (disabled && touching && !sensor)), "{:?}: enabled flag wrong", id);
                    }
                    if posts > 0 {
                        // a pair of sleepers woken by the same island is solved without being examined first
                        ensure!(dt > 0.0 && posts == 1 && touching && (pres == 1 || !was_active) && !sensor, "{} post-solve calls for {:?} with {} pre-solve calls, sensor {}", posts, id, pres, sensor);
                        ensure!(!self.rec.borrow().disable.contains(&id), "post-solve for disabled {:?}", id);
                    }
                }
                if self.check04 && self.toi {
                    let sensor = self.fixtures[ka.0].sensor || self.fixtures[kb.0].sensor;
                    let n = evs.iter().filter(|e| matches!(e, Ev::Pre(i, _) | Ev::Post(i, _) if *i == id)).count();
                    ensure!(n == 0 || !sensor, "pre/post-solve for sensor pair {:?}", id);
                    let dis = self.rec.borrow().disable.contains(&id);
                    ensure!(!dis || !evs.iter().any(|e| matches!(e, Ev::Post(i, _) if *i == id)), "post-solve for disabled {:?}", id);
                }
            }
        }
        // nothing else is in the contact list
        for id in now.keys() {
            let (a, b) = ((id.0 as usize - 1, id.1 as usize), (id.2 as usize - 1, id.3 as usize));
            ensure!(post_fat.contains_key(&a) && post_fat.contains_key(&b), "contact {:?} without proxies", id);
        }
        for f in &self.fixtures {
            h.u(f.cat as u64).u(f.mask as u64).u(f.group as u64).b(f.sensor).b(f.alive);
        }
        c.state(h.u(hash_world(&self.w)).done());
        Ok(())
    }
}
