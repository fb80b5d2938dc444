use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(event: protocol::Memo, _context: &mut Context, _consumer: Consumer<E>) {
    crate::app::log(format!("consumer: memo {}", event.op));
    crate::app::pause(event.op + crate::app::CONS).await;
}
