use super::{identification, producer::Control, protocol, Context, scope::Scope};
use crate::{app, content as ct};
use clibri::server;
use simworld::wire::K;

pub async fn emit<E: server::Error, C: server::Control<E>>(
    beacon: &protocol::Deep::Mark,
    scope: &mut Scope<'_, E, C>,
) -> Result<(), String> {
    let p = app::enter(scope, K::Mark, beacon.op, ct::mark_ok(beacon)).await;
    app::end(K::Mark, beacon.op, None);
    if p.fail {
        Err(simworld::beacon_text(beacon.op))
    } else {
        Ok(())
    }
}
