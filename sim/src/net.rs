//! A network between nodes that loses, duplicates, delays and reorders messages, with partitions,
//! until its budget of faults is used up.

use crate::rng::Rng;
use crate::sched;
use serde_derive::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct NetSpec {
    pub seed: u64,
    /// per cent
    pub drop: u64,
    pub dup: u64,
    pub max_delay_us: u64,
    pub faults: u64,
    /// (from, to) in microseconds during which nothing is delivered
    pub partitions: Vec<(u64, u64)>,
}

pub fn gen(rng: &mut Rng) -> NetSpec {
    if rng.chance(0.15) {
        return NetSpec { seed: 1, max_delay_us: 1, ..Default::default() };
    }
    NetSpec {
        seed: rng.u64() >> 12,
        drop: *rng.pick(&[0, 10, 30, 60]),
        dup: *rng.pick(&[0, 10, 30, 60]),
        max_delay_us: *rng.pick(&[1, 100, 5000, 50_000]),
        faults: *rng.pick(&[5, 20, 60]),
        partitions: (0..rng.below(3))
            .map(|_| {
                let a = rng.below(100_000);
                (a, a + rng.below(60_000))
            })
            .collect(),
    }
}

pub struct Net {
    spec: NetSpec,
    rng: Rng,
    faults: u64,
}

impl Net {
    pub fn new(spec: &NetSpec) -> Net {
        Net { spec: spec.clone(), rng: Rng::derive(spec.seed, "net"), faults: 0 }
    }

    pub fn send<M: Clone + Send + 'static>(&mut self, to: usize, m: M) {
        sched::count("messages_sent");
        let us = sched::now() / 1000;
        if self.spec.partitions.iter().any(|&(a, b)| us >= a && us < b) {
            sched::count("fault.message_lost_in_partition");
            sched::count("nontrivial");
            return;
        }
        let mut copies = 1;
        if self.faults < self.spec.faults {
            if self.rng.below(100) < self.spec.drop {
                self.faults += 1;
                sched::count("fault.message_dropped");
                sched::count("nontrivial");
                return;
            }
            if self.rng.below(100) < self.spec.dup {
                self.faults += 1;
                sched::count("fault.message_duplicated");
                sched::count("nontrivial");
                copies = 2;
            }
        }
        for _ in 0..copies {
            let d = 1 + self.rng.below(self.spec.max_delay_us * 1000);
            if d > 1_000_000 {
                sched::count("fault.message_delayed_over_1ms");
            }
            sched::send(to, Box::new(m.clone()), d);
        }
    }
}
