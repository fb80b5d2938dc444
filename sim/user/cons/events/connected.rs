use super::{controller, protocol, Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(context: &mut Context, consumer: Consumer<E>) {
    crate::app::connected(context.c, consumer).await;
}
