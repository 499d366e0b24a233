//! Handlers on simulated threads.

use crate::mt;
use crate::rt::stat;
use crate::world::*;
use bromine::prelude::*;
use std::sync::{Arc, Mutex};

/// Runs a handler's script on a thread of its own.
pub async fn offload(ctx: &Context, s: Arc<Script>, parent: usize, node: usize, client: usize) -> IPCResult<Response> {
    stat("probe:handlers on other threads", 1);
    let ctx = ctx.clone();
    let out = Arc::new(Mutex::new(None));
    let o = out.clone();
    mt::thread(move || {
        let r = mt::block_on(run_script(&ctx, &s, parent, node, client));
        *o.lock().unwrap() = Some(r);
    })
    .await;
    let r = out.lock().unwrap().take();
    match r {
        Some(r) => r,
        None => panic!("SIMPANIC handler on a thread"),
    }
}
