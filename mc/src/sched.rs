//! Exhaustive exploration of the schedules of the parallel parts.

use crate::core::{Loc, Res};
use rayon_core::control::{self, Trace};

pub struct SchedStats {
    pub schedules: u64,
    pub stolen: u64,
    pub preemptions: u64,
    pub handovers: u64,
    pub capped: bool,
}

/// Runs `f` under every schedule: every subset of the `join`s stolen, every preemption of at most
/// `preemptions`. `check` gets the result of each schedule.
pub fn schedules<R>(
    l: &mut Loc,
    threads: usize,
    preemptions: usize,
    max: u64,
    mut f: impl FnMut() -> R,
    mut check: impl FnMut(Result<R, String>, &Trace, &mut Loc) -> Res,
) -> Result<SchedStats, String> {
    let mut prefix: Vec<usize> = vec![];
    let mut s = SchedStats { schedules: 0, stolen: 0, preemptions: 0, handovers: 0, capped: false };
    loop {
        // A thread that blocks outside of the control of the scheduler, or does so for the machine
        // being loaded, makes an execution that can not be reproduced: try again.
        let (mut r, mut trace) = control::run(threads, true, preemptions, &prefix, &mut f);
        for _ in 0..3 {
            if r.is_err() || (!trace.diverged && trace.handovers == 0) {
                break;
            }
            (r, trace) = control::run(threads, true, preemptions, &prefix, &mut f);
        }
        let choices: Vec<usize> = trace.choices.iter().map(|c| c.1).collect();
        let r = r.map_err(|e| crate::core::panic_text(&e));
        l.step(trace.points as u64 + trace.joins as u64);
        l.trace();
        l.state(&choices);
        check(r, &trace, l).map_err(|e| format!("{} [schedule {:?}]", e, choices))?;
        s.schedules += 1;
        s.stolen += trace.stolen as u64;
        s.preemptions += trace.preemptions as u64;
        s.handovers += trace.handovers as u64;
        if trace.diverged && !s.capped {
            // The code under test takes decisions of its own: the enumeration is not complete.
            s.capped = true;
            l.capped += 1;
        }
        if s.handovers > 50 || s.schedules >= max || l.late() {
            // Threads block each other outside of the control of the scheduler, or there is no time left.
            s.capped = true;
            l.capped += 1;
            return Ok(s);
        }
        // next
        let mut i = trace.choices.len();
        loop {
            if i == 0 {
                return Ok(s);
            }
            i -= 1;
            if trace.choices[i].1 + 1 < trace.choices[i].0 {
                prefix = choices[..i].to_vec();
                prefix.push(trace.choices[i].1 + 1);
                break;
            }
        }
    }
}
