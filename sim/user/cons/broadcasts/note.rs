use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    event: protocol::Note,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let ok = crate::content::note_ok(&event);
    crate::app::broadcast(context.c, simworld::wire::K::Note, event.bid, ok, consumer).await;
}
