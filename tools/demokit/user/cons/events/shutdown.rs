use super::{Consumer, ConsumerError, Context};
use clibri::client;

pub async fn handler<E: client::Error>(error: Option<ConsumerError<E>>, _context: &mut Context, _consumer: Consumer<E>) {
    crate::app::log(format!("consumer: shutdown {}", error.map(|e| e.to_string()).unwrap_or_default()));
}
