use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;

pub async fn response<E: server::Error, C: server::Control<E>>(
    request: &protocol::Echo,
    scope: &mut Scope<'_, E, C>,
) -> Result<protocol::Echo, protocol::Errors::Fail> {
    crate::app::log(format!("echo {} {}", request.op, crate::app::who(scope.identification)));
    crate::app::value(request.clone());
    Ok(request.clone())
}
