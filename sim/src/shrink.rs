//! Minimising a failing plan: drop operations, faults and schedule entries, then simplify values,
//! as long as the same violation remains.

use crate::plan::*;

pub fn shrink(plan: &Plan, fails: &mut dyn FnMut(&Plan) -> bool, budget: usize) -> Plan {
    let mut best = plan.clone();
    let mut left = budget;
    loop {
        let before = best.clone();
        list(&mut best, &mut left, fails, |p| p.ops.len(), |p, lo, hi| {
            let ids: Vec<u32> = p.ops.drain(lo..hi).map(|o| o.id).collect();
            p.faults.retain(|f| !ids.contains(&f.op));
        });
        list(&mut best, &mut left, fails, |p| p.faults.len(), |p, lo, hi| {
            p.faults.drain(lo..hi);
        });
        list(&mut best, &mut left, fails, |p| p.sched.len(), |p, lo, hi| {
            p.sched.drain(lo..hi);
        });
        for c in 0..best.cams.len() {
            list(&mut best, &mut left, fails, |p| p.cams[c].flips.len(), |p, lo, hi| {
                p.cams[c].flips.drain(lo..hi);
            });
        }
        let cand = Plan { preempt: 0, ..best.clone() };
        attempt(&mut best, cand, &mut left, fails);
        values(&mut best, &mut left, fails);
        if best == before || left == 0 {
            return best;
        }
    }
}

fn attempt(best: &mut Plan, cand: Plan, left: &mut usize, fails: &mut dyn FnMut(&Plan) -> bool) -> bool {
    if *left == 0 || cand == *best {
        return false;
    }
    *left -= 1;
    if fails(&cand) {
        *best = cand;
        return true;
    }
    false
}

/// Remove chunks of a list, halving the chunk size.
fn list(
    best: &mut Plan,
    left: &mut usize,
    fails: &mut dyn FnMut(&Plan) -> bool,
    len: impl Fn(&Plan) -> usize,
    cut: impl Fn(&mut Plan, usize, usize),
) {
    let mut size = len(best).max(1);
    loop {
        let mut hi = len(best);
        while hi > 0 {
            let lo = hi.saturating_sub(size);
            let mut cand = best.clone();
            cut(&mut cand, lo, hi);
            attempt(best, cand, left, fails);
            hi = lo.min(len(best));
        }
        if size == 1 {
            return;
        }
        size = size.div_ceil(2);
    }
}

fn values(best: &mut Plan, left: &mut usize, fails: &mut dyn FnMut(&Plan) -> bool) {
    for i in 0..best.cams.len() {
        let edits: Vec<Box<dyn Fn(&mut CamSpec)>> = vec![
            Box::new(|c| c.ee = EeKind::Typical),
            Box::new(|c| c.ee_seed = 1),
            Box::new(|c| {
                if c.fr == FrKind::Wild {
                    c.fr = FrKind::Typical
                }
            }),
            Box::new(|c| c.fr_seed = 1),
            Box::new(|c| c.ctl = c.model.default_control()),
            Box::new(|c| c.st = 0),
            Box::new(|c| c.i2c = 0),
            Box::new(|c| c.skew = 0),
            Box::new(|c| c.restart = false),
            Box::new(|c| c.phase = 1),
        ];
        for e in edits {
            let mut cand = best.clone();
            e(&mut cand.cams[i]);
            attempt(best, cand, left, fails);
        }
        // Liveness properties say nothing about a camera that does not measure.
        if !matches!(best.prop.as_str(), "C08" | "C16") {
            let mut cand = best.clone();
            cand.cams[i].timer = false;
            attempt(best, cand, left, fails);
        }
    }
    // Cameras nobody uses.
    for i in (0..best.cams.len()).rev() {
        if best.cams.len() > 1 && !best.ops.iter().any(|o| o.a as usize == i && uses_cam(o.k)) {
            let mut cand = best.clone();
            cand.cams.remove(i);
            for o in cand.ops.iter_mut().filter(|o| uses_cam(o.k)) {
                if o.a as usize > i {
                    o.a -= 1;
                }
            }
            attempt(best, cand, left, fails);
        }
    }
    for i in 0..best.ops.len() {
        let npix = best.cams[0].model.npix() as u64;
        let edits: Vec<Box<dyn Fn(&mut Op)>> = vec![
            Box::new(move |o| {
                if matches!(o.k, K::IfReady | K::Image | K::Sub | K::Raw | K::TwoStep | K::LowLevel | K::Compare) {
                    o.a = npix
                }
            }),
            Box::new(|o| {
                if matches!(o.k, K::Sleep | K::SleepPeriod) {
                    o.a = 0
                }
            }),
            Box::new(|o| {
                if o.k != K::Soak {
                    o.c = 0
                }
            }),
            Box::new(|o| {
                if o.k == K::Soak {
                    o.c = (o.c / 16).max(1)
                }
            }),
            Box::new(|o| {
                if o.k == K::Soak {
                    o.c = (o.c * 3 / 4).max(1)
                }
            }),
        ];
        for e in edits {
            let mut cand = best.clone();
            e(&mut cand.ops[i]);
            attempt(best, cand, left, fails);
        }
    }
    for i in 0..best.faults.len() {
        for n in 0..best.faults[i].n.min(3) {
            let mut cand = best.clone();
            cand.faults[i].n = n;
            attempt(best, cand, left, fails);
        }
        let mut cand = best.clone();
        cand.faults[i].a = 0;
        attempt(best, cand, left, fails);
    }
}

fn uses_cam(k: K) -> bool {
    matches!(
        k,
        K::New | K::NewFrom | K::LoadCal | K::OwnCal | K::FromData | K::EnvReset | K::EnvWrite | K::EnvPublish | K::EnvRot | K::EnvHalt
    )
}
