//! Minimisation of a failing scenario: anything may go as long as the same violation remains.
use crate::props::*;
use crate::run::history_order;
use crate::scn::*;
use std::time::Instant;

pub struct Shrinker<'a> {
    pub prop: &'a str,
    pub class: String,
    pub w: &'a mut World,
    pub end: Instant,
    pub tried: u64,
}

impl Shrinker<'_> {
    fn fails(&mut self, sc: &Scenario) -> bool {
        if Instant::now() > self.end || sc.steps() == 0 {
            return false;
        }
        self.tried += 1;
        judge(self.prop, sc, self.w).violation.is_some_and(|v| v.class == self.class)
    }

    /// Replaces a random schedule by the list of switches it made.
    fn record(&mut self, sc: &Scenario) -> Option<Scenario> {
        let obs = judge(self.prop, sc, self.w).obs;
        if obs.sw_lost {
            return None;
        }
        let mut n = sc.clone();
        n.params.remove("sched");
        n.params.remove("gap");
        n.params.remove("pstart");
        n.set("first", obs.first as i64);
        for s in &obs.sw {
            let at = match s.kind {
                0 => Point::Start,
                1 => Point::Step(s.k),
                2 => Point::Block(s.k),
                _ => Point::End,
            };
            let st = n.threads.get_mut(s.thread as usize)?.get_mut(s.op as usize)?;
            st.faults.push(Fault { at, act: Act::Switch(s.target as u64) });
        }
        Some(n)
    }

    fn drop_thread(sc: &Scenario, i: usize) -> Scenario {
        let mut n = sc.clone();
        n.threads.remove(i);
        for t in &mut n.threads {
            for s in t.iter_mut() {
                s.faults.retain_mut(|f| match &mut f.act {
                    Act::Switch(x) => {
                        if *x == i as u64 {
                            return false;
                        }
                        if *x > i as u64 {
                            *x -= 1;
                        }
                        true
                    }
                    _ => true,
                });
            }
        }
        let f = n.p("first");
        if f > 0 && f >= i as i64 {
            n.set("first", f - 1);
        }
        n
    }

    pub fn run(&mut self, start: &Scenario) -> Scenario {
        let mut best = start.clone();
        // Histories: cut after the failing call, then write the history out.
        if self.prop == "C05" && best.p("explicit") == 0 {
            let o = judge(self.prop, &best, self.w).obs;
            if o.mismatch >= 0 {
                let mut n = best.clone();
                n.set("len", o.mismatch + 1);
                if self.fails(&n) {
                    best = n;
                }
            }
            let len = best.p("len") as usize;
            if len <= 4096 {
                let order = history_order(&best, best.threads[0].len(), len);
                let mut n = best.clone();
                n.threads[0] = order.iter().map(|&i| best.threads[0][i as usize].clone()).collect();
                n.set("explicit", 1);
                n.set("len", 1 << 30);
                if self.fails(&n) {
                    best = n;
                }
            }
        }
        if best.params.contains_key("sched") && best.threads.len() > 1 {
            if let Some(n) = self.record(&best) {
                if self.fails(&n) {
                    best = n;
                }
            }
        }
        let mut i = 0;
        while best.threads.len() > 1 && i < best.threads.len() {
            let n = Self::drop_thread(&best, i);
            if self.fails(&n) {
                best = n;
            } else {
                i += 1;
            }
        }
        loop {
            let before = (best.steps(), count_faults(&best), best.encode().len());
            for t in 0..best.threads.len() {
                let mut size = best.threads[t].len().div_ceil(2);
                while size >= 1 {
                    let mut i = 0;
                    while i < best.threads[t].len() {
                        let j = (i + size).min(best.threads[t].len());
                        let mut n = best.clone();
                        n.threads[t].drain(i..j);
                        if self.fails(&n) {
                            best = n;
                        } else {
                            i = j;
                        }
                        if Instant::now() > self.end {
                            return best;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size = size.div_ceil(2);
                }
            }
            for t in 0..best.threads.len() {
                for s in 0..best.threads[t].len() {
                    let mut size = best.threads[t][s].faults.len();
                    while size >= 1 {
                        let mut i = 0;
                        while i < best.threads[t][s].faults.len() {
                            let j = (i + size).min(best.threads[t][s].faults.len());
                            let mut n = best.clone();
                            n.threads[t][s].faults.drain(i..j);
                            if self.fails(&n) {
                                best = n;
                            } else {
                                i = j;
                            }
                        }
                        size /= 2;
                    }
                }
            }
            for i in (0..best.nested.len()).rev() {
                for k in (0..best.nested[i].faults.len()).rev() {
                    let mut n = best.clone();
                    n.nested[i].faults.remove(k);
                    if self.fails(&n) {
                        best = n;
                    }
                }
                let mut n = best.clone();
                n.nested.truncate(i);
                if n.nested.len() + 1 == best.nested.len() && self.fails(&n) {
                    best = n;
                }
            }
            for k in ["pers", "shuffle", "text", "every", "burst"] {
                if best.params.contains_key(k) {
                    let mut n = best.clone();
                    n.params.remove(k);
                    if self.fails(&n) {
                        best = n;
                    }
                }
            }
            // Registers used once can become immediate operands; unused fields go to zero.
            for t in 0..best.threads.len() {
                for s in 0..best.threads[t].len().min(40) {
                    for what in 0..12 {
                        let mut n = best.clone();
                        let st = &mut n.threads[t][s];
                        match what {
                            0 => st.dst = IMM,
                            1..=3 => st.src[what - 1] = IMM,
                            4 => st.call.spec = Default::default(),
                            5 => st.call.a = 0,
                            6 => st.call.b = 0,
                            7 => st.call.c = 0,
                            8 => st.call.round = 0,
                            9 => st.call.prior = false,
                            10 if st.call.text.is_ascii() => {
                                let k = st.call.text.len() / 2;
                                st.call.text.truncate(k);
                            }
                            11 if st.call.text.is_ascii() => {
                                st.call.text.pop();
                            }
                            _ => {}
                        }
                        if n != best && self.fails(&n) {
                            best = n;
                        }
                    }
                }
            }
            let after = (best.steps(), count_faults(&best), best.encode().len());
            if after == before || Instant::now() > self.end {
                return best;
            }
        }
    }
}

pub fn count_faults(sc: &Scenario) -> usize {
    sc.threads.iter().flatten().chain(&sc.nested).map(|s| s.faults.len()).sum()
}
