use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;

pub async fn emit<E: server::Error, C: server::Control<E>>(
    event: protocol::Tick,
    scope: &mut AnonymousScope<'_, E, C>,
) -> Result<((Vec<Uuid>, protocol::Note), (Vec<Uuid>, protocol::Memo)), String> {
    let op = event.op;
    crate::app::log(format!("tick {}", op));
    crate::app::pause(op).await;
    if crate::app::fails(op) {
        return Err(format!("failed {}", op));
    }
    scope.deferred(Box::pin(async move {
        crate::app::log(format!("deferred {}", op));
        crate::app::probe();
    }));
    let to = scope.filter.all();
    Ok(((to.clone(), protocol::Note { op, text: String::from("tick") }), (to, protocol::Memo { op })))
}
