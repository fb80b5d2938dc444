use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;

pub enum Response {
    CaseA((protocol::World, Option<(Vec<Uuid>, protocol::Note)>, Option<(Vec<Uuid>, protocol::Memo)>)),
    CaseB(protocol::Moon),
}

/// The text of the request says what to do: words "a", "b", "fail", "note", "memo", "others", "deferred".
pub async fn response<E: server::Error, C: server::Control<E>>(
    request: &protocol::Hello,
    scope: &mut Scope<'_, E, C>,
) -> Result<Response, protocol::Errors::Fail> {
    let op = request.op;
    crate::app::log(format!("hello {} {}", op, crate::app::who(scope.identification)));
    crate::app::look(scope.filter);
    crate::app::pause(op).await;
    let has = |w: &str| request.text.split(' ').any(|x| x == w);
    if has("deferred") {
        scope.deferred(Box::pin(async move {
        crate::app::log(format!("deferred {}", op));
        crate::app::probe();
    }));
    }
    crate::app::act(scope.identification, op);
    if has("fail") {
        return Err(protocol::Errors::Fail { op, error: String::from("failed") });
    }
    if has("b") {
        return Ok(Response::CaseB(protocol::Moon { op }));
    }
    let to = if has("others") { scope.filter.except(&scope.identification.uuid()) } else { scope.filter.all() };
    let note = if has("note") { Some((to.clone(), protocol::Note { op, text: String::from("hello") })) } else { None };
    let memo = if has("memo") { Some((to, protocol::Memo { op })) } else { None };
    crate::app::log(format!("answer {}", op));
    Ok(Response::CaseA((protocol::World { op, text: request.text.clone() }, note, memo)))
}
