use super::{protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    event: protocol::Deep::Inner::News,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let ok = crate::content::inner_news_ok(&event);
    crate::app::broadcast(context.c, simworld::wire::K::InnerNews, event.bid, ok, consumer).await;
}
