//! The baton scheduler.
use super::*;

pub fn wait_baton(t: usize) {
    let w = w();
    loop {
        if w.tasks[t].go.swap(0, SeqCst) == 1 {
            return;
        }
        futex_wait(&w.tasks[t].go, 0);
    }
}

fn give(t: usize) {
    let w = w();
    w.sched.current = t as u32;
    w.tasks[t].go.store(1, SeqCst);
    futex_wake(&w.tasks[t].go);
}

pub fn end_world(o: u32) -> ! {
    let w = w();
    w.outcome.store(o, SeqCst);
    w.outcome_task = me() as u32;
    unsafe {
        ACTIVE = false;
    }
    exit_now(99)
}

pub fn start(w: &mut World) {
    let n = w.nprocs as usize;
    let first = match w.sched.mode {
        sm::REPLAY => {
            let s = &mut w.sched;
            if s.replay_n > 0 && s.replay[0].point == 0 {
                s.replay_i = 1;
                (s.replay[0].task as usize).min(n - 1)
            } else {
                0
            }
        }
        sm::PCT => best(w).unwrap_or(0),
        _ => w.sched.rng.below(n as u64) as usize,
    };
    if first != 0 {
        record(w, 0, first);
    }
    set_next_slow(w);
    give(first);
}

fn record(w: &mut World, point: u64, t: usize) {
    let s = &mut w.sched;
    s.sched_hash = (s.sched_hash ^ (point << 8) ^ t as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
    s.sched_hash ^= s.sched_hash >> 31;
    if (s.dec_n as usize) < MAX_DEC {
        s.dec[s.dec_n as usize] = Dec { point, task: t as u32, pad: 0 };
        s.dec_n += 1;
    } else {
        s.dec_over += 1;
    }
}

pub fn set_next_slow(w: &mut World) {
    let s = &mut w.sched;
    let mut n = s.budget;
    match s.mode {
        sm::REPLAY => {
            if s.replay_i < s.replay_n {
                n = n.min(s.replay[s.replay_i as usize].point);
            }
        }
        sm::PCT => {
            if s.pct_i < s.pct_n {
                n = n.min(s.pct_at[s.pct_i as usize]);
            }
        }
        _ => {
            if s.edge_mean > 0 {
                n = n.min(s.next_preempt);
            }
        }
    }
    s.next_slow = n;
}

fn runnable_others(w: &World, m: usize, out: &mut [u8; MAX_TASKS]) -> usize {
    let mut n = 0;
    for (i, t) in w.tasks.iter().enumerate() {
        if i != m && t.state == ts::RUNNABLE {
            out[n] = i as u8;
            n += 1;
        }
    }
    n
}

fn best(w: &World) -> Option<usize> {
    let mut b: Option<usize> = None;
    for (i, t) in w.tasks.iter().enumerate() {
        if t.state == ts::RUNNABLE && b.map_or(true, |x| t.prio > w.tasks[x].prio) {
            b = Some(i);
        }
    }
    b
}

fn switch_to(t: usize) {
    let w = w();
    let m = me();
    let p = w.sched.points;
    record(w, p, t);
    w.sched.switches += 1;
    give(t);
    wait_baton(m);
}

/// Called when the point counter reached `next_slow`.
#[cold]
pub fn slow_point(_op: bool) {
    let w = w();
    let p = w.sched.points;
    if p >= w.sched.budget {
        end_world(oc::BUDGET);
    }
    let m = me();
    match w.sched.mode {
        sm::REPLAY => {
            while w.sched.replay_i < w.sched.replay_n
                && w.sched.replay[w.sched.replay_i as usize].point < p
            {
                w.sched.replay_i += 1;
            }
            let mut to = None;
            if w.sched.replay_i < w.sched.replay_n
                && w.sched.replay[w.sched.replay_i as usize].point == p
            {
                let t = w.sched.replay[w.sched.replay_i as usize].task as usize;
                w.sched.replay_i += 1;
                if t < MAX_TASKS && t != m && w.tasks[t].state == ts::RUNNABLE {
                    to = Some(t);
                }
            }
            set_next_slow(w);
            if let Some(t) = to {
                switch_to(t);
            }
        }
        sm::PCT => {
            if w.sched.pct_i < w.sched.pct_n && p >= w.sched.pct_at[w.sched.pct_i as usize] {
                w.sched.pct_i += 1;
                w.tasks[m].prio = w.sched.low_prio;
                w.sched.low_prio = w.sched.low_prio.saturating_sub(1);
            }
            set_next_slow(w);
            if let Some(b) = best(w) {
                if b != m {
                    switch_to(b);
                }
            }
        }
        _ => {
            let mean = w.sched.edge_mean.max(1);
            w.sched.next_preempt = p + 1 + w.sched.rng.below(2 * mean);
            set_next_slow(w);
            let mut c = [0u8; MAX_TASKS];
            let n = runnable_others(w, m, &mut c);
            if n > 0 {
                let t = c[w.sched.rng.below(n as u64) as usize] as usize;
                switch_to(t);
            }
        }
    }
}

/// A chosen place in the program: preempt here, every other time, as long as it lasts.
#[cold]
pub fn site_point(i: usize) {
    let w = w();
    let m = me();
    let mut c = [0u8; MAX_TASKS];
    let n = runnable_others(w, m, &mut c);
    if n == 0 {
        return;
    }
    w.site[i] -= 1;
    if w.sched.rng.chance(500) {
        let t = c[w.sched.rng.below(n as u64) as usize] as usize;
        switch_to(t);
    }
}

/// A scheduling point at an operation (system call, wake-up, thread creation).
pub fn op_point() {
    let w = w();
    w.sched.points += 1;
    if w.sched.points >= w.sched.next_slow {
        slow_point(true);
        return;
    }
    let m = me();
    match w.sched.mode {
        sm::RANDOM => {
            if w.sched.op_switch > 0 {
                let mut c = [0u8; MAX_TASKS];
                let n = runnable_others(w, m, &mut c);
                if n > 0 && w.sched.rng.chance(u64::from(w.sched.op_switch)) {
                    let t = c[w.sched.rng.below(n as u64) as usize] as usize;
                    switch_to(t);
                }
            }
        }
        sm::PCT => {
            if let Some(b) = best(w) {
                if b != m && w.tasks[b].prio > w.tasks[m].prio {
                    switch_to(b);
                }
            }
        }
        _ => {}
    }
}

/// give others a chance unconditionally (sched_yield, spinning)
pub fn yield_now() {
    let w = w();
    w.sched.points += 1;
    let m = me();
    if w.sched.points >= w.sched.budget {
        end_world(oc::BUDGET);
    }
    let mut c = [0u8; MAX_TASKS];
    let n = runnable_others(w, m, &mut c);
    if n == 0 {
        // let time pass so that whoever sleeps can go on
        w.now += 1000;
        fire_deadlines(w, false);
        return;
    }
    let d = default_next(w, m).unwrap_or(m);
    let t = choose(w, m, d, &c[..n]);
    w.sched.switches += 1;
    if w.sched.mode == sm::PCT {
        // avoid starving whoever is waited for
        w.tasks[m].prio = w.sched.low_prio;
        w.sched.low_prio = w.sched.low_prio.saturating_sub(1);
    }
    give(t);
    wait_baton(m);
}

fn default_next(w: &World, m: usize) -> Option<usize> {
    for k in 1..=MAX_TASKS {
        let i = (m + k) % MAX_TASKS;
        if i != m && w.tasks[i].state == ts::RUNNABLE {
            return Some(i);
        }
    }
    None
}

/// Who runs next when the current task cannot: `d` unless the plan says otherwise.
fn choose(w: &mut World, _m: usize, d: usize, c: &[u8]) -> usize {
    let p = w.sched.points;
    let t = match w.sched.mode {
        sm::REPLAY => {
            while w.sched.replay_i < w.sched.replay_n
                && w.sched.replay[w.sched.replay_i as usize].point < p
            {
                w.sched.replay_i += 1;
            }
            let mut t = d;
            if w.sched.replay_i < w.sched.replay_n
                && w.sched.replay[w.sched.replay_i as usize].point == p
            {
                let x = w.sched.replay[w.sched.replay_i as usize].task as usize;
                w.sched.replay_i += 1;
                if c.contains(&(x as u8)) {
                    t = x;
                }
            }
            set_next_slow(w);
            t
        }
        sm::PCT => {
            let mut b = c[0] as usize;
            for x in c {
                if w.tasks[*x as usize].prio > w.tasks[b].prio {
                    b = *x as usize;
                }
            }
            b
        }
        _ => c[w.sched.rng.below(c.len() as u64) as usize] as usize,
    };
    if t != d {
        record(w, p, t);
    }
    t
}

fn fire_deadlines(w: &mut World, _x: bool) {
    let now = w.now;
    for t in w.tasks.iter_mut() {
        if (t.state == ts::FUTEX || t.state == ts::SLEEP || t.state == ts::NET) && t.deadline <= now
        {
            t.state = ts::RUNNABLE;
            t.timed_out = 1;
        }
    }
}

/// Find who runs next; the caller is not runnable (or is gone).  `None`: everything is over.
fn next_task(m: usize) -> Option<usize> {
    let w = w();
    w.sched.points += 1;
    let mut spins = 0u32;
    loop {
        let mut c = [0u8; MAX_TASKS];
        let mut n = 0;
        let mut live = false;
        for (i, t) in w.tasks.iter().enumerate() {
            match t.state {
                ts::RUNNABLE => {
                    c[n] = i as u8;
                    n += 1;
                }
                ts::UNUSED | ts::DONE => {}
                _ => live = true,
            }
        }
        if n > 0 {
            w.sched.max_runnable = w.sched.max_runnable.max(n as u32);
            let d = if w.tasks[m].state == ts::RUNNABLE {
                m
            } else {
                default_next(w, m).unwrap_or(m)
            };
            return Some(choose(w, m, d, &c[..n]));
        }
        if !live {
            return None;
        }
        // nobody can run: let time pass until something happens
        let mut dl = NEVER;
        for t in w.tasks.iter() {
            if (t.state == ts::FUTEX || t.state == ts::SLEEP || t.state == ts::NET)
                && t.deadline < dl
            {
                dl = t.deadline;
            }
        }
        spins += 1;
        if spins > 100_000 {
            harness(20, 0);
        }
        if w.net.enabled != 0 {
            // network turn: the driver delivers what is due next, no later than `dl`
            netapi::driver_turn(dl);
            if netapi::wake_ready() {
                continue;
            }
            if w.net.next_event < dl {
                w.now = w.now.max(w.net.next_event);
                continue;
            }
        }
        if dl == NEVER {
            end_world(oc::DEADLOCK);
        }
        w.now = w.now.max(dl);
        fire_deadlines(w, true);
    }
}

/// The calling task has set its own state to something other than RUNNABLE: run somebody else
/// until it is its turn again.
pub fn block() {
    let m = me();
    if let Some(t) = next_task(m) {
        if t == m {
            return;
        }
        w().sched.switches += 1;
        give(t);
        wait_baton(m);
    }
}

/// The calling task is finished; pass the baton on.
pub fn leave() {
    let w = w();
    let m = me();
    match next_task(m) {
        Some(t) => give(t),
        None => {
            w.outcome.store(oc::FINISHED, SeqCst);
        }
    }
}

pub fn proc_exit(state: u32, code: i32) -> ! {
    let w = w();
    let p = unsafe { PROC };
    w.procs[p].state = state;
    w.procs[p].exit_code = code;
    w.log(Ev {
        class: op::MARK,
        proc: p as u8,
        task: me() as u8,
        arg: i64::from(state),
        res: i64::from(code),
        ..zero_ev()
    });
    for t in w.tasks.iter_mut() {
        if t.state != ts::UNUSED && t.proc as usize == p {
            t.state = ts::DONE;
        }
    }
    // open files are closed
    for i in 0..MAX_FDS {
        let f = w.procs[p].fds[i];
        if f.kind == fdk::FILE {
            let n = &mut w.inodes[f.ino as usize];
            n.opens = n.opens.saturating_sub(1);
        } else if f.kind == fdk::SOCK {
            netapi::sock_closed(f.ino as usize);
        }
        w.procs[p].fds[i].kind = fdk::FREE;
    }
    leave();
    unsafe {
        ACTIVE = false;
    }
    exit_now(code)
}

pub fn zero_ev() -> Ev {
    Ev {
        seq: 0,
        op: 0,
        proc: 0,
        class: 0,
        task: 0,
        fault: 0,
        path: 0,
        path2: 0,
        arg: 0,
        res: 0,
        hash: 0,
        len: 0,
        mutated: 0,
        pad: 0,
    }
}
