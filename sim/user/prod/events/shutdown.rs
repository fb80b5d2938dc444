use super::{producer::Control, Context};
use clibri::server;
use simworld::{hist::Ev, rec, with};

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    _context: &mut Context,
    _control: &Control<E, C>,
) -> Result<(), String> {
    rec(Ev::PShutdown);
    if with(|w| w.shutdown_fails) {
        simworld::fault("shutdown handler fails");
        return Err(String::from("farewell failed"));
    }
    Ok(())
}
