use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;

pub async fn emit<E: server::Error, C: server::Control<E>>(
    beacon: &protocol::Ping,
    scope: &mut Scope<'_, E, C>,
) -> Result<(), String> {
    crate::app::log(format!("ping {} {}", beacon.op, crate::app::who(scope.identification)));
    crate::app::pause(beacon.op).await;
    if crate::app::fails(beacon.op) {
        // a reason without words
        return Err(if beacon.op == 1001 { String::from(" ") } else { format!("failed {}", beacon.op) });
    }
    Ok(())
}
