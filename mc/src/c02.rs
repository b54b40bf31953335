//! C02: broad phase pair updates against a set model.
use crate::c01::Bx;
use crate::ensure;
use crate::fw::*;
use box2d_rs::b2_broad_phase::*;
use box2d_rs::b2_math::*;
use std::collections::BTreeMap;

struct Cb(Vec<(u32, u32)>);
impl AddPairTrait<u32> for Cb {
    fn add_pair(&mut self, a: Option<u32>, b: Option<u32>) {
        self.0.push((a.unwrap_or(u32::MAX), b.unwrap_or(u32::MAX)));
    }
}

struct Obj {
    id: i32,
    ud: u32,
    tight: Bx,
    changed: bool, // created, re-enlarged or touched since the last update
    moved: bool,   // created or re-enlarged
    events: u32,   // number of such changes
}

pub struct Sim {
    bp: B2broadPhase<u32>,
    live: Vec<Obj>,
    next: u32,
    shift: (f32, f32),
}

impl Sim {
    pub fn new() -> Sim {
        Sim { bp: B2broadPhase::new(), live: vec![], next: 1, shift: (0.0, 0.0) }
    }
    fn fat(&self, id: i32) -> Bx {
        Bx::from(self.bp.get_fat_aabb(id))
    }
    pub fn create(&mut self, b: Bx) -> R {
        let ud = self.next;
        self.next += 1;
        let id = self.bp.create_proxy(b.aabb(), &ud);
        ensure!(self.live.iter().all(|o| o.id != id), "live id returned");
        self.live.push(Obj { id, ud, tight: b, changed: true, moved: true, events: 1 });
        self.basic()
    }
    pub fn destroy(&mut self, k: usize) -> R {
        let o = self.live.remove(k);
        self.bp.destroy_proxy(o.id);
        self.basic()
    }
    pub fn mv(&mut self, k: usize, b: Bx, d: (f32, f32)) -> R {
        let id = self.live[k].id;
        let f0 = self.fat(id);
        self.bp.move_proxy(id, b.aabb(), B2vec2 { x: d.0, y: d.1 });
        let f1 = self.fat(id);
        ensure!(f1.contains(&b), "stored box {:?} does not enclose {:?}", f1, b);
        if f0 != f1 || !f0.contains(&b) {
            self.live[k].changed = true;
            self.live[k].moved = true;
            self.live[k].events += 1;
        }
        self.live[k].tight = b;
        self.basic()
    }
    pub fn touch(&mut self, k: usize) -> R {
        self.bp.touch_proxy(self.live[k].id);
        self.live[k].changed = true;
        self.live[k].events += 1;
        self.basic()
    }
    fn basic(&self) -> R {
        ensure!(self.bp.get_proxy_count() as usize == self.live.len(), "proxy count {} but {} live", self.bp.get_proxy_count(), self.live.len());
        for o in &self.live {
            ensure!(self.bp.get_user_data(o.id) == Some(o.ud), "user data of proxy {} wrong", o.id);
            ensure!(self.fat(o.id).contains(&o.tight), "stored box does not enclose");
        }
        Ok(())
    }
    pub fn update(&mut self, c: &mut Ctx) -> R {
        let mut cb = Cb(vec![]);
        self.bp.update_pairs(&mut cb);
        let mut got: BTreeMap<(u32, u32), u32> = BTreeMap::new();
        for (a, b) in cb.0 {
            ensure!(a != b, "proxy {} paired with itself", a);
            *got.entry((a.min(b), a.max(b))).or_insert(0) += 1;
        }
        let mut hs = Fnv::new();
        for i in 0..self.live.len() {
            for j in i + 1..self.live.len() {
                let (a, b) = (&self.live[i], &self.live[j]);
                let ov = self.fat(a.id).overlaps(&self.fat(b.id));
                ensure!(ov == self.bp.test_overlap(a.id, b.id) && ov == self.bp.test_overlap(b.id, a.id), "test_overlap of {} and {} is not {}", a.ud, b.ud, ov);
                let key = (a.ud.min(b.ud), a.ud.max(b.ud));
                let n = got.remove(&key).unwrap_or(0);
                hs.u(n as u64).b(ov);
                let want = ov && (a.changed || b.changed);
                ensure!((n > 0) == want, "pair {:?} reported {} times, overlap {}, changed {} {}", key, n, ov, a.changed, b.changed);
                // one report per change at most, and both-moved pairs from one side only
                let cap = if a.moved && b.moved { a.events.max(b.events) } else { a.events + b.events };
                ensure!(n <= cap, "pair {:?} reported {} times", key, n);
                c.eval(1);
            }
        }
        ensure!(got.is_empty(), "pairs of dead proxies reported: {:?}", got);
        for o in &mut self.live {
            o.changed = false;
            o.moved = false;
            o.events = 0;
        }
        // nothing is left to report
        let mut cb = Cb(vec![]);
        self.bp.update_pairs(&mut cb);
        ensure!(cb.0.is_empty(), "pairs {:?} reported again with no change", cb.0);
        c.state(hs.u(self.live.len() as u64).done());
        Ok(())
    }
}

const BOXES: [Bx; 4] = [Bx::new(0.0, 0.0, 0.5, 0.5), Bx::new(0.8, 0.3, 0.5, 0.25), Bx::new(3.0, 0.0, 0.5, 0.5), Bx::new(1.5, 0.0, 2.0, 0.1)];

const NOPS: usize = 19;
fn pick(n: usize, j: usize) -> Option<usize> {
    match j {
        _ if n == 0 => None,
        0 => Some(n - 1),
        1 => Some(0),
        _ if n < 3 => None,
        _ => Some(n / 2),
    }
}
fn op(s: &mut Sim, o: usize, c: &mut Ctx) -> Result<bool, String> {
    let n = s.live.len();
    match o {
        0..=3 => s.create(BOXES[o])?,
        4..=6 => match pick(n, o - 4) {
            Some(k) => s.destroy(k)?,
            None => return Ok(false),
        },
        7..=9 => match pick(n, o - 7) {
            Some(k) => s.touch(k)?,
            None => return Ok(false),
        },
        10..=17 => {
            let m = o - 10;
            let k = match pick(n, m % 2) {
                Some(k) => k,
                None => return Ok(false),
            };
            let t = s.live[k].tight;
            match m / 2 {
                0 => s.mv(k, t.shift(-0.04, 0.0), (0.04, 0.0))?,
                1 => s.mv(k, t.shift(-1.2, 0.0), (0.3, 0.0))?,
                2 => s.mv(k, BOXES[0].shift(20.0, 20.0), (0.0, 0.0))?,
                _ => s.mv(k, BOXES[2].shift(0.3, 0.3), (-0.2, -0.2))?,
            }
        }
        _ => s.update(c)?,
    }
    Ok(true)
}
fn opname(o: usize) -> String {
    match o {
        0..=3 => format!("create{}", o),
        4..=6 => format!("destroy {}", ["newest", "oldest", "middle"][o - 4]),
        7..=9 => format!("touch {}", ["newest", "oldest", "middle"][o - 7]),
        10..=17 => format!("move {} {}", ["newest", "oldest"][(o - 10) % 2], ["slightly", "by 1.2", "far away", "onto box 2"][(o - 10) / 2]),
        _ => "update".into(),
    }
}

pub fn check() -> Check {
    let th = thorough();
    let d = if th { 6 } else { 5 };
    let mut phases = vec![];
    for st in 0..4usize {
        phases.push(phase(
            &format!("seq{}", st),
            seq_count(NOPS, d),
            move |i| format!("start {}: {}; update", st, decode_seq(i, NOPS, d).iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; ")),
            move |i, c| {
                let mut s = Sim::new();
                match st {
                    0 => {}
                    1 => {
                        s.create(BOXES[0])?;
                        s.create(BOXES[1])?;
                        s.update(c)?;
                    }
                    2 => {
                        for k in 0..4 {
                            s.create(BOXES[k])?;
                        }
                        s.update(c)?;
                        s.destroy(1)?;
                    }
                    _ => {
                        for k in 0..3 {
                            s.create(BOXES[0].shift(k as f32 * 0.1, 0.0))?;
                        }
                        s.destroy(0)?;
                        s.update(c)?;
                        s.touch(0)?;
                    }
                }
                for o in decode_seq(i, NOPS, d) {
                    if !op(&mut s, o, c)? {
                        return Ok(());
                    }
                    c.step(1);
                }
                s.update(c)
            },
        ));
    }
    // buffer growth: many proxies, many moves, many pairs in one update
    let nmax = if th { 140 } else { 70 };
    phases.push(phase(
        "many",
        nmax * 4 * 5,
        |i| format!("{} proxies, layout {}, churn {}", i / 20 + 1, i % 4, (i / 4) % 5),
        move |i, c| {
            let n = (i / 20 + 1) as usize;
            let l = i % 4;
            let churn = (i / 4) % 5;
            let lay = |k: usize| match l {
                0 => Bx::new(0.01 * k as f32, 0.0, 0.5, 0.5),
                1 => Bx::new(1.0 * k as f32, 0.0, 0.45, 0.5),
                2 => Bx::new((k % 7) as f32, (k / 7) as f32, 0.6, 0.6),
                _ => Bx::new(5.0 * k as f32, 0.0, 0.5, 0.5),
            };
            let mut s = Sim::new();
            for k in 0..n {
                s.create(lay(k))?;
                // so that the buffers grow by later changes
                if churn > 2 && k % 10 == 9 {
                    s.update(c)?;
                }
            }
            if churn == 1 {
                s.destroy(n / 2)?;
                s.create(lay(0))?;
            }
            s.update(c)?;
            for round in 0..2 {
                for k in 0..s.live.len() {
                    match churn {
                        0 => s.touch(k)?,
                        // every other one, so that no neighbour reports the pair instead
                        3 => {
                            if k % 2 == round {
                                s.touch(k)?;
                            }
                        }
                        // the highest first
                        4 => {
                            let k = s.live.len() - 1 - k;
                            let t = s.live[k].tight;
                            s.mv(k, t.shift(-0.4, 0.5), (0.0, 0.1))?;
                        }
                        1 => {
                            let t = s.live[k].tight;
                            s.mv(k, t.shift(-0.5, 0.3), (0.5, -0.3))?;
                            if k % 3 == round {
                                s.touch(k)?;
                            }
                        }
                        _ => {
                            if k % 2 == round {
                                let t = s.live[k].tight;
                                s.mv(k, t.shift(-2.0, 0.0), (-0.1, 0.0))?;
                            }
                        }
                    }
                    c.step(1);
                }
                if churn == 2 && s.live.len() > 2 {
                    s.destroy(0)?;
                }
                s.update(c)?;
            }
            Ok(())
        },
    ));
    Check {
        id: "C02",
        bounds: format!("all sequences of {} operations (create/destroy/touch/move/update, 19-letter alphabet) from 4 starting states followed by an update; 1..{} proxies in 4 layouts and 5 churn patterns", d, nmax),
        assumptions: vec!["a pair may be reported once per change of its members since the last update, never more often".into()],
        phases,
    }
}
