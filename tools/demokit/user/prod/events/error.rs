use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use uuid::Uuid;

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    error: ProducerError<E>,
    uuid: Option<Uuid>,
    _context: &mut Context,
    _identification: Option<&identification::Identification>,
    _control: &Control<E, C>,
) -> Result<(), String> {
    crate::app::log(format!("error {} {}", uuid.map(crate::app::name).unwrap_or_default(), error));
    if crate::app::fails(crate::app::OBSERVER) {
        return Err(String::from("observer failed"));
    }
    Ok(())
}
