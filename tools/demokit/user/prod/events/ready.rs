use super::{producer::Control, Context};
use clibri::server;

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    _context: &mut Context,
    control: &Control<E, C>,
) -> Result<(), String> {
    crate::app::ready(Box::new(control.clone()));
    Ok(())
}
