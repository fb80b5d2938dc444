use super::{Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(_context: &mut Context, _consumer: Consumer<E>) {
    crate::app::log(String::from("consumer: connected"));
    crate::app::pause(crate::app::CONS).await;
}
