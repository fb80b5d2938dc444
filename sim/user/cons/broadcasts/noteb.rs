use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    event: protocol::NoteB,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let ok = crate::content::note_b_ok(&event);
    crate::app::broadcast(context.c, simworld::wire::K::NoteB, event.bid, ok, consumer).await;
}
