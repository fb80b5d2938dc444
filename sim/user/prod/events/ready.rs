use super::{producer::Control, Context};
use clibri::server;
use simworld::{hist::Ev, rec};

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    _context: &mut Context,
    control: &Control<E, C>,
) -> Result<(), String> {
    rec(Ev::PReady);
    crate::app::stash(control.clone());
    Ok(())
}
