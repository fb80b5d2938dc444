use super::{Consumer, Context};
use clibri::client;

pub async fn handler<E: client::Error>(context: &mut Context, consumer: Consumer<E>) {
    crate::app::event(simworld::hist::Ev::CDisconnected { c: context.c }, context.c).await;
}
