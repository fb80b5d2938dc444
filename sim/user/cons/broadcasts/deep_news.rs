use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    event: protocol::Deep::News,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let ok = crate::content::news_ok(&event);
    crate::app::broadcast(context.c, simworld::wire::K::News, event.bid, ok, consumer).await;
}
