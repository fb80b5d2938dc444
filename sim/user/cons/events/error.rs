use super::{Consumer, ConsumerError, Context};
use clibri::client;

pub async fn handler<E: client::Error>(
    error: ConsumerError<E>,
    context: &mut Context,
    consumer: Consumer<E>,
) {
    let class = match &error {
        ConsumerError::BufferError(_) => "Buffer",
        ConsumerError::UnknownMessage(_) => "Unknown",
        ConsumerError::HashCheck(_) => "HashCheck",
        ConsumerError::Handshake(_) => "Handshake",
        ConsumerError::Client(_) => "Client",
        _ => "Other",
    };
    crate::app::event(simworld::hist::Ev::CError { c: context.c, class, what: error.to_string() }, context.c).await;
}
