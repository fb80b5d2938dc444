use super::{Consumer, ConsumerError, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    error: Option<ConsumerError<E>>,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    crate::app::event(simworld::hist::Ev::CShutdown { c: context.c, err: error.map(|e| e.to_string()) }, context.c).await;
}
