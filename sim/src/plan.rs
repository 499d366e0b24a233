//! Which scenarios decide which property.

#[cfg(feature = "full")]
use crate::enc;
use crate::{bulk, frames, ids, leak, life, mesh, pool, raw};
use crate::rt::Scenario;

pub struct Plan {
    pub property: &'static str,
    /// scenario, runs of the quick tier, runs of the thorough tier
    pub scenarios: &'static [(&'static str, u64, u64)],
    /// explored with the bare build of the library as well: 0 never, 1 thorough tier, 2 always
    pub bare: u8,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

macro_rules! sc {
    ($name:expr, $f:path) => {
        Scenario { name: $name, run: || Box::pin($f()), max_polls: 2_000_000 }
    };
}

pub static SCENARIOS: &[Scenario] = &[
    sc!("mesh", mesh::plain),
    sc!("mesh-streams", mesh::streams),
    sc!("mesh-crowd", mesh::crowd),
    sc!("mesh-cancel", mesh::cancel),
    sc!("mesh-timeouts", mesh::timeouts),
    sc!("mesh-cuts", mesh::cuts),
    sc!("mesh-stops", mesh::stops),
    sc!("mesh-endless", mesh::endless),
    sc!("raw-peers", raw::peers),
    sc!("raw-deadlines", raw::deadlines),
    sc!("raw-hostile", raw::hostile),
    sc!("frames", frames::frames),
    sc!("serve", life::serve),
    sc!("setup", life::setup),
    sc!("life", life::life),
    Scenario { name: "leak", run: || Box::pin(leak::leak()), max_polls: 20_000_000 },
    Scenario { name: "bulk", run: || Box::pin(bulk::bulk()), max_polls: 20_000_000 },
    sc!("pool", pool::tasks),
    sc!("ids", ids::tasks),
    sc!("ids-flood", ids::flood),
    #[cfg(feature = "mt")]
    sc!("mt-mesh", mesh::threads),
    #[cfg(feature = "mt")]
    sc!("mt-pool", pool::threads),
    #[cfg(feature = "mt")]
    sc!("mt-ids", ids::threads),
    #[cfg(feature = "full")]
    sc!("enc-stream", enc::stream),
    #[cfg(feature = "full")]
    sc!("enc-long", enc::long),
    #[cfg(feature = "full")]
    sc!("enc-mitm", enc::mitm),
    #[cfg(feature = "full")]
    sc!("enc-mitm-ipc", enc::mitm_app),
    #[cfg(feature = "full")]
    sc!("enc-auth", enc::auth),
];


const MESH: &str = "a run is a seeded system (transport, clients, pools, handlers, workload, network behaviour, faults, schedule); it is non-trivial when at least one operation was issued and at least one handler ran; runs are distinct by the hash of their complete history";
const RAW: &str = "a run is a seeded system in which independent implementations of the layout (and malformed peers) talk to a real node; non-trivial when a handler ran or a request was made; runs are distinct by the hash of their complete history";

#[cfg(feature = "full")]
const ENC: &str = "a run is a seeded set of encrypted connections (keys, permissions, chunking of writes and reads, flushes, shutdowns, abandonment, network behaviour, tampering, schedule); non-trivial when application data passed; runs are distinct by the hash of their complete history";

const LIFE: &str = "a run is a seeded server with a sequence of well-behaved and misbehaving peers, set-ups and faults; non-trivial when a well-behaved client was served (or a set-up completed); runs are distinct by the hash of their complete history";

const A_ALL: &[&str] = &[
    "tokio's runtime is replaced by a patched copy whose executor, timers and sockets are simulated; its synchronisation primitives are the real code",
    "the node executes on one simulated thread, where tasks interleave at await points; in the build with threads, application code (actors and handlers) runs on further simulated threads that are preempted between memory accesses, with sequentially consistent memory",
];

macro_rules! plan {
    ($p:expr, $bare:expr, $rule:expr, [$(($s:expr, $q:expr, $t:expr)),* $(,)?]) => {
        Plan { property: $p, scenarios: &[$(($s, $q, $t)),*], bare: $bare, level: "exploration", rule: $rule, assumptions: A_ALL }
    };
}

/// Properties that are explored with simulated threads as well, and from which tier on (1 thorough, 2 quick).
pub static THREADED: &[(&str, u8)] =
    &[("C01", 1), ("C03", 2), ("C04", 1), ("C05", 1), ("C06", 1), ("C07", 1), ("C08", 1), ("C09", 1), ("C17", 2), ("C18", 2), ("C21", 1), ("C22", 1), ("C23", 2)];

#[cfg(feature = "mt")]
const MT: &str = "a run is a seeded system whose actors and some of whose handlers run on simulated threads (preempted at atomic operations, or at any memory access); non-trivial when a handler ran or ids were compared; runs are distinct by the hash of their complete history";

/// What the build with simulated threads explores.
#[cfg(feature = "mt")]
pub static PLANS: &[Plan] = &[
    plan!("C01", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C03", 0, MT, [("mt-mesh", 4000, 150_000), ("mt-pool", 2000, 60_000)]),
    plan!("C04", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C05", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C06", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C07", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C08", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C09", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C17", 0, MT, [("mt-ids", 10_000, 400_000), ("mt-mesh", 1000, 60_000)]),
    plan!("C18", 0, MT, [("mt-pool", 12_000, 500_000), ("mt-mesh", 1000, 60_000)]),
    plan!("C21", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C22", 0, MT, [("mt-mesh", 4000, 150_000)]),
    plan!("C23", 0, MT, [("mt-mesh", 4000, 150_000)]),
];

#[cfg(not(feature = "mt"))]
pub static PLANS: &[Plan] = &[
    plan!("C01", 1, MESH, [("mesh", 6000, 200_000), ("mesh-crowd", 3000, 60_000), ("mesh-streams", 2000, 60_000), ("mesh-cuts", 3000, 100_000), ("mesh-cancel", 2000, 60_000), ("bulk", 1200, 60_000)]),
    plan!("C02", 1, MESH, [("mesh", 5000, 200_000), ("raw-peers", 6000, 200_000), ("mesh-timeouts", 2000, 60_000), ("mesh-cancel", 4000, 100_000)]),
    plan!("C03", 1, MESH, [("mesh", 4000, 150_000), ("raw-peers", 4000, 150_000), ("raw-deadlines", 4000, 150_000), ("mesh-crowd", 2000, 60_000), ("mesh-timeouts", 2000, 60_000), ("bulk", 700, 40_000)]),
    plan!("C04", 1, MESH, [("mesh-streams", 7000, 250_000), ("raw-deadlines", 6000, 150_000), ("mesh-timeouts", 2000, 60_000), ("bulk", 1000, 40_000)]),
    plan!("C05", 1, MESH, [("mesh", 7000, 250_000), ("mesh-streams", 3000, 60_000), ("mesh-crowd", 2000, 60_000), ("bulk", 500, 30_000)]),
    plan!("C06", 1, MESH, [("mesh", 6000, 200_000), ("raw-peers", 6000, 200_000), ("mesh-streams", 2000, 60_000), ("bulk", 500, 30_000)]),
    plan!("C07", 1, MESH, [("raw-deadlines", 10_000, 300_000), ("mesh-timeouts", 4000, 150_000), ("bulk", 800, 40_000)]),
    plan!("C08", 1, MESH, [("mesh-cancel", 12_000, 400_000), ("bulk", 500, 30_000)]),
    plan!("C09", 1, MESH, [("mesh", 4000, 150_000), ("raw-peers", 5000, 150_000), ("mesh-cancel", 3000, 100_000), ("mesh-crowd", 3000, 60_000), ("frames", 3000, 100_000), ("bulk", 700, 30_000)]),
    #[cfg(feature = "full")]
    plan!("C10", 1, RAW, [("raw-hostile", 10_000, 400_000), ("raw-peers", 3000, 100_000), ("frames", 3000, 100_000), ("serve", 4000, 100_000), ("enc-mitm", 3000, 100_000), ("enc-auth", 3000, 100_000)]),
    #[cfg(not(feature = "full"))]
    plan!("C10", 1, RAW, [("raw-hostile", 10_000, 400_000), ("raw-peers", 3000, 100_000), ("frames", 3000, 100_000), ("serve", 4000, 100_000)]),
    plan!("C11", 1, RAW, [("raw-peers", 8000, 250_000), ("raw-deadlines", 4000, 100_000), ("frames", 4000, 150_000)]),
    plan!("C12", 1, LIFE, [("serve", 25_000, 800_000), ("raw-hostile", 3000, 100_000), ("mesh-cuts", 2000, 60_000), ("bulk", 700, 30_000)]),
    #[cfg(feature = "full")]
    plan!("C13", 0, ENC, [("enc-stream", 12_000, 500_000), ("enc-long", 8, 200)]),
    #[cfg(feature = "full")]
    plan!("C14", 0, ENC, [("enc-mitm", 14_000, 600_000), ("enc-mitm-ipc", 4000, 150_000)]),
    #[cfg(feature = "full")]
    plan!("C15", 0, ENC, [("enc-auth", 10_000, 400_000), ("enc-mitm", 4000, 150_000)]),
    #[cfg(feature = "full")]
    plan!("C16", 0, ENC, [("enc-stream", 9000, 300_000), ("enc-long", 8, 200), ("enc-auth", 4000, 100_000), ("enc-mitm-ipc", 4000, 100_000), ("mesh", 3000, 100_000)]),
    plan!("C17", 1, MESH, [("ids", 12_000, 400_000), ("ids-flood", 8, 60), ("mesh", 2000, 60_000)]),
    plan!("C18", 1, MESH, [("pool", 15_000, 500_000), ("mesh-crowd", 2000, 60_000), ("setup", 5000, 100_000), ("bulk", 700, 30_000)]),
    plan!("C21", 1, MESH, [("mesh", 3000, 150_000), ("mesh-crowd", 5000, 150_000), ("mesh-endless", 4000, 150_000), ("mesh-streams", 2000, 60_000), ("serve", 6000, 150_000), ("bulk", 1000, 50_000)]),
    plan!("C22", 1, MESH, [("mesh", 8000, 250_000), ("raw-hostile", 4000, 100_000), ("raw-peers", 3000, 100_000), ("bulk", 700, 40_000)]),
    plan!("C23", 1, MESH, [("mesh", 7000, 250_000), ("mesh-crowd", 4000, 100_000), ("bulk", 700, 40_000)]),
    plan!("C19", 1, LIFE, [("life", 14_000, 400_000), ("mesh-stops", 4000, 150_000), ("mesh-cuts", 4000, 150_000)]),
    plan!("C20", 1, LIFE, [("leak", 1800, 60_000)]),
    plan!("C24", 1, LIFE, [("setup", 30_000, 1_000_000), ("bulk", 700, 30_000)]),
];
