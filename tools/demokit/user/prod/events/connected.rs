use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;

pub async fn emit<E: server::Error, C: server::Control<E>>(
    scope: &mut Scope<'_, E, C>,
) -> Result<Option<(Vec<Uuid>, protocol::Note)>, String> {
    crate::app::log(format!("connected {}", crate::app::who(scope.identification)));
    crate::app::keep(scope.identification);
    crate::app::look(scope.filter);
    crate::app::pause(crate::app::CONN).await;
    if crate::app::fails(crate::app::CONN) {
        return Err(String::from("failed"));
    }
    Ok(crate::app::announce(scope.identification, scope.filter).map(|to| (to, protocol::Note { op: crate::app::CONN, text: String::from("connected") })))
}
