//! C13: time of impact. For translating shapes the distance is convex in time and the
//! reference is exact; for rotating ones the distance is evaluated on a fixed dense time grid.
use crate::c11::{proxy, solids};
use crate::c12::{first, min_dist};
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_time_of_impact::*;

fn sweep(lc: P, o0: P, o1: P, a0: f32, a1: f32) -> B2Sweep {
    // origin positions to centre positions
    let (x0, x1) = (X::new(o0, a0 as f64), X::new(o1, a1 as f64));
    B2Sweep { local_center: vp(lc), c0: vp(x0.at(lc)), c: vp(x1.at(lc)), a0, a: a1, alpha0: 0.0 }
}
/// reference transform of a sweep at time t
fn at(s: &B2Sweep, t: f64) -> X {
    let a = s.a0 as f64 + (s.a as f64 - s.a0 as f64) * t;
    let c = pv(s.c0) + (pv(s.c) - pv(s.c0)) * t;
    let mut x = X::new(p(0.0, 0.0), a);
    x.o = c - x.rot(pv(s.local_center));
    x
}

struct Case {
    sa: B2Sweep,
    sb: B2Sweep,
    tmax: f32,
}

fn run(sha: &Sh, ca: usize, shb: &Sh, cb: usize, k: &Case, swap: bool) -> B2toioutput {
    let mut out = B2toioutput::default();
    let (pa, pb) = (proxy(sha, ca), proxy(shb, cb));
    let inp = if swap { B2toiinput { proxy_a: pb, proxy_b: pa, sweep_a: k.sb, sweep_b: k.sa, t_max: k.tmax } } else { B2toiinput { proxy_a: pa, proxy_b: pb, sweep_a: k.sa, sweep_b: k.sb, t_max: k.tmax } };
    b2_time_of_impact(&mut out, &inp);
    out
}

const E: f64 = 2e-4;

fn levels(a: &Core, b: &Core) -> (f64, f64) {
    let slop = B2_LINEAR_SLOP as f64;
    (slop.max(a.r + b.r - 3.0 * slop), 0.25 * slop)
}

fn translate(sha: &Sh, ca: usize, shb: &Sh, cb: usize, k: &Case, c: &mut Ctx) -> R {
    let (a0, b0) = (sha.core(ca).at(&at(&k.sa, 0.0)), shb.core(cb).at(&at(&k.sb, 0.0)));
    let rel = ((pv(k.sb.c) - pv(k.sb.c0)) - (pv(k.sa.c) - pv(k.sa.c0))) * k.tmax as f64;
    let (target, tol) = levels(&a0, &b0);
    let d0 = core_dist(&a0, &b0);
    for swap in [false, true] {
        let o = run(sha, ca, shb, cb, k, swap);
        c.step(1);
        c.eval(1);
        let t = o.t as f64;
        let what = |s: &str| format!("children {} {}{} relative motion {:?}: {:?} at {}: {}", ca, cb, if swap { " swapped" } else { "" }, rel, o.state, t, s);
        ensure!(t >= 0.0 && t <= k.tmax as f64, "{}", what("time out of range"));
        if d0 == 0.0 {
            let (s, _) = core_sep(&a0, &b0);
            if s < -1e-4 {
                ensure!(o.state == B2toioutputState::EOverlapped && t == 0.0, "{}", what("the shapes start overlapped"));
            }
            continue;
        }
        if d0 < 1e-4 {
            continue;
        }
        ensure!(o.state != B2toioutputState::EOverlapped && o.state != B2toioutputState::EUnknown, "{}", what(&format!("the shapes start {} apart", d0)));
        if d0 < target + tol - 1e-4 {
            ensure!(o.state == B2toioutputState::ETouching && t == 0.0, "{}", what("the shapes start in contact"));
            continue;
        }
        if d0 < target + tol + 1e-4 {
            continue;
        }
        // rel covers [0,tmax]; normalise time
        let tn = t / k.tmax as f64;
        let (md, mt) = min_dist(&a0, &b0, rel);
        if o.state != B2toioutputState::ESeparated {
            ensure!(o.state == B2toioutputState::ETouching, "{}", what("no definite answer"));
            let d = core_dist(&a0, &b0.shift(rel * tn));
            ensure!((d - target).abs() < tol + E, "{}", what(&format!("distance there is {}, target {}", d, target)));
            if md < target - tol - E {
                let f = first(&a0, &b0, rel, target - tol - E, mt);
                ensure!(tn <= f + 1e-4, "{}", what(&format!("the shapes already touch at {}", f * k.tmax as f64)));
            }
        } else {
            ensure!(t == k.tmax as f64, "{}", what("separated before the end"));
            ensure!(md > target - tol - E, "{}", what(&format!("distance falls to {} at {}", md, mt * k.tmax as f64)));
        }
        if md > target + tol + E {
            ensure!(o.state == B2toioutputState::ESeparated, "{}", what(&format!("distance never falls below {}", md)));
        }
    }
    Ok(())
}

/// Rotating sweeps: end points of the answer are judged, plus no deep passage before it.
fn rotate(sha: &Sh, ca: usize, shb: &Sh, cb: usize, k: &Case, c: &mut Ctx) -> R {
    let dist = |t: f64| {
        let (a, b) = (sha.core(ca).at(&at(&k.sa, t)), shb.core(cb).at(&at(&k.sb, t)));
        core_sep(&a, &b).0
    };
    let (a0, b0) = (sha.core(ca), shb.core(cb));
    let (target, tol) = levels(&a0, &b0);
    let d0 = dist(0.0);
    for swap in [false, true] {
        let o = run(sha, ca, shb, cb, k, swap);
        c.step(1);
        c.eval(1);
        let t = o.t as f64;
        let what = |s: &str| format!("children {} {}{}: {:?} at {}: {}", ca, cb, if swap { " swapped" } else { "" }, o.state, t, s);
        ensure!(t >= 0.0 && t <= k.tmax as f64, "{}", what("time out of range"));
        if d0 < -1e-4 {
            ensure!(o.state == B2toioutputState::EOverlapped && t == 0.0, "{}", what("the shapes start overlapped"));
            continue;
        }
        if d0 < 1e-4 {
            continue;
        }
        ensure!(o.state != B2toioutputState::EOverlapped && o.state != B2toioutputState::EUnknown, "{}", what(&format!("the shapes start {} apart", d0)));
        if d0 < target + tol - 1e-4 {
            ensure!(o.state == B2toioutputState::ETouching && t == 0.0, "{}", what("the shapes start in contact"));
            continue;
        }
        if d0 < target + tol + 1e-4 {
            continue;
        }
        let d = dist(t);
        match o.state {
            B2toioutputState::ETouching => ensure!((d - target).abs() < tol + E, "{}", what(&format!("distance there is {}, target {}", d, target))),
            B2toioutputState::ESeparated => {
                ensure!(t == k.tmax as f64, "{}", what("separated before the end"));
                ensure!(d > target + tol - E, "{}", what(&format!("distance at the end is {}, target {}", d, target)));
            }
            _ => ensure!(d > target - tol - E, "{}", what(&format!("distance there is {}, target {}", d, target))),
        }
        // small turns cannot hide a deep passage
        let turn = ((k.sa.a - k.sa.a0).abs() + (k.sb.a - k.sb.a0).abs()) as f64;
        if turn < 0.7 {
            let len = (pv(k.sb.c) - pv(k.sb.c0)).len() + (pv(k.sa.c) - pv(k.sa.c0)).len();
            let n = 32;
            for s in 0..=n {
                let u = t * s as f64 / n as f64;
                ensure!(dist(u) > -0.2 * turn * (1.0 + len), "{}", what(&format!("the shapes overlap by {} at {}", -dist(u), u)));
            }
        }
    }
    Ok(())
}

pub fn check() -> Check {
    let th = thorough();
    let sh = solids();
    let ns = sh.len();
    let npos = if th { 16usize } else { 8 };
    let ndir = if th { 24usize } else { 10 };
    let lens = [0.0f64, 0.1, 1.0, 4.0, 15.0];
    let mut phases = vec![];
    let centers = [p(0.0, 0.0), p(0.3, -0.2)];
    for base in 0..2usize {
        let (s1, s2) = (sh.clone(), sh.clone());
        phases.push(phase(
            &format!("translate{}", base),
            (ns * ns * 3 * npos * 3 * 2 * 2) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b, ang, k, r, lc, split) = (d.r(&s2).clone(), d.r(&s2).clone(), d.d(3), d.d(npos), d.d(3), d.d(2), d.d(2));
                format!("{:?} and {:?}, angle index {}, position {} ring {}, centre {}, {} moving, base {}", a, b, ang, k, r, lc, if split == 0 { "second" } else { "both" }, base)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (sa, sb, ang, k, ring, lc, split) = (d.r(&s1), d.r(&s1), d.d(3), d.d(npos), d.d(3), d.p(&centers), d.d(2));
                let o = [p(0.0, 0.0), p(12.0, -7.0)][base];
                let (aa, ab) = [(0.0f32, 0.0f32), (0.5, 2.1), (-7.0, 4.4)][ang];
                let rad = [0.3, 1.3, 2.7][ring];
                let t0 = 2.0 * PI * k as f64 / npos as f64 + 0.13;
                let ob = o + p(rad * t0.cos(), rad * t0.sin());
                for (ca, cb) in (0..sa.children()).flat_map(|a| (0..sb.children()).map(move |b| (a, b))) {
                    for dir in 0..ndir {
                        let t = 2.0 * PI * dir as f64 / ndir as f64;
                        for len in lens {
                            let m = p(t.cos(), t.sin()) * len;
                            let (ma, mb) = if split == 0 { (p(0.0, 0.0), m) } else { (m * -0.4 + p(0.7, 0.2), m * 0.6 + p(0.7, 0.2)) };
                            for tmax in [1.0f32, 0.6] {
                                if tmax < 1.0 && split == 0 {
                                    continue;
                                }
                                let kase = Case { sa: sweep(lc, o, o + ma, aa, aa), sb: sweep(lc, ob, ob + mb, ab, ab), tmax };
                                translate(sa, ca, sb, cb, &kase, c)?;
                            }
                        }
                    }
                }
                c.state(Fnv::new().u(i).done());
                Ok(())
            },
        ));
    }
    let (s1, s2) = (sh.clone(), sh.clone());
    let turns = [-3.0f32, -0.8, -0.1, 0.2, 1.5];
    let nt = turns.len();
    phases.push(phase(
        "rotate",
        (ns * ns * npos * 2 * nt * 3) as u64,
        move |i| {
            let mut d = Dec::new(i);
            let (a, b, k, r, w, wa) = (d.r(&s2).clone(), d.r(&s2).clone(), d.d(npos), d.d(2), d.p(&turns), d.d(3));
            format!("{:?} and {:?} turning by {}, position {} ring {}, first turning index {}", a, b, w, k, r, wa)
        },
        move |i, c| {
            let mut d = Dec::new(i);
            let (sa, sb, k, ring, w, wa) = (d.r(&s1), d.r(&s1), d.d(npos), d.d(2), d.p(&turns), d.d(3));
            let wa = [0.0f32, 0.4, -1.2][wa];
            let rad = [1.3, 2.7][ring];
            let t0 = 2.0 * PI * k as f64 / npos as f64 + 0.13;
            let ob = p(rad * t0.cos(), rad * t0.sin());
            for (ca, cb) in (0..sa.children()).flat_map(|a| (0..sb.children()).map(move |b| (a, b))) {
                for dir in 0..ndir {
                    let t = 2.0 * PI * dir as f64 / ndir as f64;
                    for len in [0.0, 1.0, 4.0] {
                        let m = p(t.cos(), t.sin()) * len;
                        let kase = Case { sa: sweep(p(0.1, 0.0), p(0.0, 0.0), p(0.0, 0.0), 0.3, 0.3 + wa), sb: sweep(p(0.0, 0.2), ob, ob + m, 6.5, 6.5 + w), tmax: 1.0 };
                        rotate(sa, ca, sb, cb, &kase, c)?;
                    }
                }
            }
            c.state(Fnv::new().u(i).done());
            Ok(())
        },
    ));
    Check {
        id: "C13",
        bounds: format!("{}x{} shape pairs (all children), both orders; translating: 3 angles x {} positions x 3 rings x {} directions x {} lengths x 2 end times x 2 centres x 1 or 2 moving shapes x 2 placements; rotating: {} positions x 2 rings x {} directions x 3 lengths x {}x3 turns", ns, ns, npos, ndir, lens.len(), npos, ndir, nt),
        assumptions: vec!["for rotating sweeps the documentation allows intermediate non-tunnelling contacts to be missed; the answer is judged at its start and its end, and for total turns below 0.7 rad against a bound on the missed overlap".into()],
        phases,
    }
}
