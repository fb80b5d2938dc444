use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    event: protocol::NoteC,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let ok = crate::content::note_c_ok(&event);
    crate::app::broadcast(context.c, simworld::wire::K::NoteC, event.bid, ok, consumer).await;
}
