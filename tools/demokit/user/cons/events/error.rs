use super::{Consumer, ConsumerError, Context};
use clibri::client;

pub async fn handler<E: client::Error>(error: ConsumerError<E>, _context: &mut Context, _consumer: Consumer<E>) {
    crate::app::log(format!("consumer: error {}", error));
}
