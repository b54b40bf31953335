//! C29: containers.
use crate::ensure;
use crate::fw::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_growable_stack::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_world::*;
use box2d_rs::joints::b2_revolute_joint::*;
use std::rc::Rc;

fn stack_run<const N: usize>(ops: &[usize], c: &mut Ctx) -> R {
    let mut s = B2growableStack::<i32, N>::new();
    let mut m: Vec<i32> = vec![];
    let mut next = 1;
    for o in ops {
        match o {
            0 => {
                s.push(&next);
                m.push(next);
                next += 1;
            }
            1 => {
                if m.is_empty() {
                    return Ok(());
                }
                let g = s.pop();
                let w = m.pop().unwrap();
                ensure!(g == w, "pop gave {} expected {}", g, w);
            }
            _ => {
                // push twice
                for _ in 0..2 {
                    s.push(&next);
                    m.push(next);
                    next += 7;
                }
            }
        }
        c.step(1);
        ensure!(s.get_count() == m.len(), "count {} expected {}", s.get_count(), m.len());
        c.eval(1);
    }
    let mut h = Fnv::new();
    h.u(N as u64);
    while let Some(w) = m.pop() {
        let g = s.pop();
        h.u(g as u64);
        ensure!(g == w, "final pop gave {} expected {}", g, w);
    }
    ensure!(s.get_count() == 0, "not empty at the end");
    c.state(h.done());
    Ok(())
}

/// World bodies as a sequence: `ops` create at the front or destroy at a position.
fn body_lists(ops: &[usize], c: &mut Ctx) -> R {
    let w = world(0.0, 0.0);
    let mut m: Vec<(u32, B)> = vec![]; // front first
    let mut next = 1u32;
    for o in ops {
        if *o == 0 {
            let mut d = bdef(DY, next as f32, 0.0, 0.0);
            d.user_data = Some(next);
            m.insert(0, (next, B2world::create_body(w.clone(), &d)));
            next += 1;
        } else {
            let k = *o - 1;
            if k >= m.len() {
                return Ok(());
            }
            let (_, b) = m.remove(k);
            w.borrow_mut().destroy_body(b);
        }
        c.step(1);
        let got: Vec<u32> = w.borrow().get_body_list().iter().map(|b| b.borrow().get_user_data().unwrap()).collect();
        let want: Vec<u32> = m.iter().map(|x| x.0).collect();
        ensure!(got == want, "body list {:?} expected {:?}", got, want);
        ensure!(w.borrow().get_body_count() == m.len(), "body count {}", w.borrow().get_body_count());
        // following the links one by one gives the same sequence
        let mut cur = w.borrow().get_body_list().iter().next();
        for x in &want {
            let b = cur.ok_or("list ends early")?;
            ensure!(b.borrow().get_user_data() == Some(*x), "next link leads elsewhere");
            cur = b.borrow().get_next();
        }
        ensure!(cur.is_none(), "list does not end");
        let mut h = Fnv::new();
        for x in got {
            h.u(x as u64);
        }
        c.state(h.done());
        c.eval(1);
    }
    let weak: Vec<_> = m.iter().map(|x| Rc::downgrade(&x.1)).collect();
    drop(m);
    drop(w);
    ensure!(weak.iter().all(|x| x.upgrade().is_none()), "dropping the world leaves bodies alive");
    Ok(())
}

fn fixture_lists(ops: &[usize], c: &mut Ctx) -> R {
    let w = world(0.0, 0.0);
    let b = body(&w, DY, 0.0, 0.0, 0.0);
    let mut m: Vec<(u32, F)> = vec![];
    let mut next = 1u32;
    for o in ops {
        if *o == 0 {
            m.insert(0, (next, fixu(&b, &Sh::Circle(0.5, next as f32, 0.0), 1.0, next)));
            next += 1;
        } else {
            let k = *o - 1;
            if k >= m.len() {
                return Ok(());
            }
            let (_, f) = m.remove(k);
            let wk = Rc::downgrade(&f);
            B2body::destroy_fixture(b.clone(), f);
            ensure!(wk.upgrade().is_none(), "removed fixture is kept alive");
        }
        c.step(1);
        let got: Vec<u32> = b.borrow().get_fixture_list().iter().map(|f| f.borrow().get_user_data().unwrap()).collect();
        let want: Vec<u32> = m.iter().map(|x| x.0).collect();
        ensure!(got == want, "fixture list {:?} expected {:?}", got, want);
        let mut cur = b.borrow().get_fixture_list().front().cloned();
        for x in &want {
            let f = cur.ok_or("list ends early")?;
            ensure!(f.borrow().get_user_data() == Some(*x), "next link leads elsewhere");
            cur = f.borrow().get_next();
        }
        ensure!(cur.is_none(), "list does not end");
        ensure!(w.borrow().get_proxy_count() as usize == m.len(), "proxy count");
        let mut h = Fnv::new();
        h.u(77);
        for x in got {
            h.u(x as u64);
        }
        c.state(h.done());
        c.eval(1);
    }
    let weak: Vec<_> = m.iter().map(|x| Rc::downgrade(&x.1)).collect();
    drop(m);
    w.borrow_mut().destroy_body(b);
    ensure!(weak.iter().all(|x| x.upgrade().is_none()), "destroying the body leaves fixtures alive");
    Ok(())
}

fn joint_lists(ops: &[usize], c: &mut Ctx) -> R {
    let w = world(0.0, 0.0);
    let bs: Vec<B> = (0..3).map(|i| body(&w, DY, i as f32, 0.0, 0.0)).collect();
    let mut m: Vec<(u32, J, usize, usize)> = vec![];
    let mut next = 1u32;
    for o in ops {
        if *o < 3 {
            let (a, b) = [(0, 1), (1, 2), (2, 0)][*o];
            let mut d = B2revoluteJointDef::<U>::default();
            d.initialize(bs[a].clone(), bs[b].clone(), v(0.5, 0.0));
            d.base.user_data = Some(next);
            let j = w.borrow_mut().create_joint(&B2JointDefEnum::RevoluteJoint(d));
            m.insert(0, (next, j, a, b));
            next += 1;
        } else {
            let k = *o - 3;
            if k >= m.len() {
                return Ok(());
            }
            let (_, j, _, _) = m.remove(k);
            let wk = Rc::downgrade(&j);
            w.borrow_mut().destroy_joint(j);
            ensure!(wk.upgrade().is_none(), "removed joint is kept alive");
        }
        c.step(1);
        let got: Vec<u32> = w.borrow().get_joint_list().iter().map(|j| j.borrow().get_base().get_user_data().unwrap()).collect();
        let want: Vec<u32> = m.iter().map(|x| x.0).collect();
        ensure!(got == want, "joint list {:?} expected {:?}", got, want);
        ensure!(w.borrow().get_joint_count() == m.len(), "joint count");
        for (k, b) in bs.iter().enumerate() {
            let n = b.borrow().get_joint_list().iter().count();
            let e = m.iter().filter(|x| x.2 == k || x.3 == k).count();
            ensure!(n == e, "body {} has {} joint edges, expected {}", k, n, e);
        }
        let mut h = Fnv::new();
        h.u(78);
        for x in got {
            h.u(x as u64);
        }
        c.state(h.done());
        c.eval(1);
    }
    let weak: Vec<_> = m.iter().map(|x| Rc::downgrade(&x.1)).collect();
    drop(m);
    drop(bs);
    drop(w);
    ensure!(weak.iter().all(|x| x.upgrade().is_none()), "dropping the world leaves joints alive");
    Ok(())
}

pub fn check() -> Check {
    let th = thorough();
    let d = if th { 14 } else { 12 };
    let mut phases = vec![];
    phases.push(phase("stack1", seq_count(3, d), move |i| format!("stack capacity 1: {:?}", decode_seq(i, 3, d)), move |i, c| stack_run::<1>(&decode_seq(i, 3, d), c)));
    phases.push(phase("stack4", seq_count(3, d), move |i| format!("stack capacity 4: {:?}", decode_seq(i, 3, d)), move |i, c| stack_run::<4>(&decode_seq(i, 3, d), c)));
    // sizes around the inline capacity used by the tree
    phases.push(phase(
        "stack256",
        700,
        |i| format!("push {} then pop/push around it", i),
        |i, c| {
            let mut ops = vec![0usize; i as usize];
            ops.extend([1, 0, 1, 1, 0, 0, 2, 1, 1, 1, 0]);
            stack_run::<256>(&ops, c)?;
            let mut ops = vec![2usize; i as usize / 2];
            ops.extend(vec![1usize; i as usize / 3]);
            ops.extend(vec![0usize; i as usize / 4]);
            stack_run::<256>(&ops, c)
        },
    ));
    let bd = if th { 10 } else { 9 };
    let a = 5;
    phases.push(phase("bodies", seq_count(a, bd), move |i| format!("0 create, k destroy at k-1: {:?}", decode_seq(i, a, bd)), move |i, c| body_lists(&decode_seq(i, a, bd), c)));
    phases.push(phase("fixtures", seq_count(a, bd), move |i| format!("0 create, k destroy at k-1: {:?}", decode_seq(i, a, bd)), move |i, c| fixture_lists(&decode_seq(i, a, bd), c)));
    phases.push(phase("joints", seq_count(7, bd - 2), move |i| format!("0..2 create on a body pair, 3+k destroy k-th: {:?}", decode_seq(i, 7, bd - 2)), move |i, c| joint_lists(&decode_seq(i, 7, bd - 2), c)));
    // long lists are built, walked and freed without exhausting a default sized stack
    let sizes: Vec<usize> = vec![1, 10, 1000, 30000, 100000];
    let s2 = sizes.clone();
    phases.push(phase(
        "long",
        sizes.len() as u64 * 4,
        move |i| format!("list of {} elements, kind {} (0 bodies, 1 fixtures, 2 joints, 3 contacts), dropped with the world", s2[i as usize / 4], i % 4),
        move |i, c| {
            let n = sizes[i as usize / 4];
            // in a process of its own, so that an exhausted stack is an observation
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["C29", "--long", &(i % 4).to_string(), &n.to_string()])
                .output()
                .map_err(|e| panic!("harness: {}", e))
                .unwrap();
            c.step(n as u64);
            c.eval(1);
            c.state(i + 1);
            ensure!(out.status.success(), "list of {} elements: {} {}", n, String::from_utf8_lossy(&out.stdout).trim(), String::from_utf8_lossy(&out.stderr).trim());
            Ok(())
        },
    ));
    Check {
        id: "C29",
        bounds: format!("all push/pop sequences of length {} on stacks of capacity 1 and 4, sizes 0..699 at capacity 256; all create/destroy-at-position sequences of length {} for bodies and fixtures and {} for joints; lists of up to 100000 elements", d, bd, bd - 2),
        assumptions: vec!["the linked lists are exercised through the world, body and fixture lists that use them".into()],
        phases,
    }
}

/// Build, walk and drop a long list on a default sized stack.
pub fn long(kind: usize, n: usize) -> i32 {
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> R {
        let w = world(0.0, 0.0);
        let wk;
        match kind {
            0 => {
                for k in 0..n {
                    body(&w, DY, k as f32, 0.0, 0.0);
                }
                ensure!(w.borrow().get_body_list().iter().count() == n, "body list length");
                wk = Rc::downgrade(&w.borrow().get_body_list().iter().last().unwrap());
            }
            1 => {
                let b = body(&w, ST, 0.0, 0.0, 0.0);
                for k in 0..n {
                    fix(&b, &Sh::Circle(0.3, k as f32, 0.0), 0.0);
                }
                ensure!(b.borrow().get_fixture_list().iter().count() == n, "fixture list length");
                wk = Rc::downgrade(&b);
            }
            3 => {
                let a = body(&w, ST, 0.0, 0.0, 0.0);
                fix(&a, &Sh::Edge((-1.0, 0.0), (2.0 * n as f32 + 1.0, 0.0)), 0.0);
                for k in 0..n {
                    let b = body(&w, DY, 2.0 * k as f32, 0.0, 0.0);
                    fix(&b, &Sh::Circle(0.3, 0.0, 0.0), 1.0);
                }
                w.borrow_mut().step(0.0, 1, 1);
                ensure!(w.borrow().get_contact_list().iter().count() == n, "contact list length");
                ensure!(a.borrow().get_contact_list().iter().count() == n, "contact edge list length");
                wk = Rc::downgrade(&a);
            }
            _ => {
                let a = body(&w, DY, 0.0, 0.0, 0.0);
                let b = body(&w, DY, 1.0, 0.0, 0.0);
                for _ in 0..n {
                    let mut d = B2revoluteJointDef::<U>::default();
                    d.initialize(a.clone(), b.clone(), v(0.5, 0.0));
                    d.base.collide_connected = true;
                    w.borrow_mut().create_joint(&B2JointDefEnum::RevoluteJoint(d));
                }
                ensure!(w.borrow().get_joint_list().iter().count() == n, "joint list length");
                ensure!(a.borrow().get_joint_list().iter().count() == n, "edge list length");
                wk = Rc::downgrade(&a);
            }
        }
        drop(w);
        ensure!(wk.upgrade().is_none(), "elements survive the world");
        Ok(())
    });
    match h.unwrap().join() {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            println!("{}", e);
            1
        }
        Err(_) => 1,
    }
}
