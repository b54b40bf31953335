//! Joint builders: definitions satisfied by the current placement.
use crate::kit::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;

pub const DIST: usize = 0;
pub const FRIC: usize = 1;
pub const MOTOR: usize = 2;
pub const MOUSE: usize = 3;
pub const PRIS: usize = 4;
pub const PULL: usize = 5;
pub const REV: usize = 6;
pub const WELD: usize = 7;
pub const WHEEL: usize = 8;
pub const GEAR: usize = 9;
pub const KNAMES: [&str; 10] = ["distance", "friction", "motor", "mouse", "prismatic", "pulley", "revolute", "weld", "wheel", "gear"];

pub fn base(d: &mut B2jointDef<U>, a: &B, b: &B, collide: bool, ud: u32) {
    d.body_a = Some(a.clone());
    d.body_b = Some(b.clone());
    d.collide_connected = collide;
    d.user_data = Some(ud);
}
pub fn mid(a: &B, b: &B) -> B2vec2 {
    0.5 * (a.borrow().get_position() + b.borrow().get_position())
}

/// Any kind but gears, anchored at `anchor` (world), axis (1,0) in the world.
pub fn def(kind: usize, a: &B, b: &B, anchor: B2vec2, collide: bool, ud: u32) -> B2JointDefEnum<U> {
    let (la, lb) = (a.borrow().get_local_point(anchor), b.borrow().get_local_point(anchor));
    let ax = a.borrow().get_local_vector(v(1.0, 0.0));
    let ra = b.borrow().get_angle() - a.borrow().get_angle();
    match kind {
        DIST => {
            let mut d = B2distanceJointDef::<U>::default();
            d.initialize(a.clone(), b.clone(), a.borrow().get_position(), b.borrow().get_position());
            base(&mut d.base, a, b, collide, ud);
            B2JointDefEnum::DistanceJoint(d)
        }
        FRIC => {
            let mut d = B2frictionJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = la;
            d.local_anchor_b = lb;
            d.max_force = 5.0;
            d.max_torque = 2.0;
            B2JointDefEnum::FrictionJoint(d)
        }
        MOTOR => {
            let mut d = B2motorJointDef::<U>::default();
            d.initialize(a.clone(), b.clone());
            base(&mut d.base, a, b, collide, ud);
            d.max_force = 100.0;
            d.max_torque = 100.0;
            B2JointDefEnum::MotorJoint(d)
        }
        MOUSE => {
            let mut d = B2mouseJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.target = b.borrow().get_position();
            d.max_force = 1000.0;
            d.stiffness = 50.0;
            d.damping = 5.0;
            B2JointDefEnum::MouseJoint(d)
        }
        PRIS => {
            let mut d = B2prismaticJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = la;
            d.local_anchor_b = lb;
            d.local_axis_a = ax;
            d.reference_angle = ra;
            B2JointDefEnum::PrismaticJoint(d)
        }
        PULL => {
            let mut d = B2pulleyJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            let (pa, pb) = (a.borrow().get_position(), b.borrow().get_position());
            d.initialize(a.clone(), b.clone(), pa + v(0.0, 4.0), pb + v(0.5, 3.0), pa, pb, 1.0);
            base(&mut d.base, a, b, collide, ud);
            B2JointDefEnum::PulleyJoint(d)
        }
        REV => {
            let mut d = B2revoluteJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = la;
            d.local_anchor_b = lb;
            d.reference_angle = ra;
            B2JointDefEnum::RevoluteJoint(d)
        }
        WELD => {
            let mut d = B2weldJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = la;
            d.local_anchor_b = lb;
            d.reference_angle = ra;
            B2JointDefEnum::WeldJoint(d)
        }
        WHEEL => {
            let mut d = B2wheelJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = la;
            d.local_anchor_b = lb;
            d.local_axis_a = ax;
            d.stiffness = 30.0;
            d.damping = 3.0;
            B2JointDefEnum::WheelJoint(d)
        }
        _ => panic!("harness: joint kind"),
    }
}
pub fn mk(w: &W, kind: usize, a: &B, b: &B, collide: bool, ud: u32) -> J {
    let d = def(kind, a, b, mid(a, b), collide, ud);
    w.borrow_mut().create_joint(&d)
}
/// Gear between the moving bodies of two revolute/prismatic joints.
pub fn gear(w: &W, j1: &J, j2: &J, a: &B, b: &B, ratio: f32, collide: bool, ud: u32) -> J {
    let mut d = B2gearJointDef::<U>::default();
    base(&mut d.base, a, b, collide, ud);
    d.joint1 = Some(j1.clone());
    d.joint2 = Some(j2.clone());
    d.ratio = ratio;
    w.borrow_mut().create_joint(&B2JointDefEnum::GearJoint(d))
}
pub fn kind_of(t: B2jointType) -> usize {
    match t {
        B2jointType::EDistanceJoint => DIST,
        B2jointType::EFrictionJoint => FRIC,
        B2jointType::EMotorJoint => MOTOR,
        B2jointType::EMouseJoint => MOUSE,
        B2jointType::EPrismaticJoint => PRIS,
        B2jointType::EPulleyJoint => PULL,
        B2jointType::ERevoluteJoint => REV,
        B2jointType::EWeldJoint => WELD,
        B2jointType::EWheelJoint => WHEEL,
        B2jointType::EGearJoint => GEAR,
        _ => 99,
    }
}
