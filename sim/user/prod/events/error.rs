use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use simworld::{hist::Ev, rec};
use uuid::Uuid;

pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(
    error: ProducerError<E>,
    uuid: Option<Uuid>,
    _context: &mut Context,
    identification: Option<&identification::Identification>,
    _control: &Control<E, C>,
) -> Result<(), String> {
    let class = match &error {
        ProducerError::NotConfirmedConnection => "NotConfirmed",
        ProducerError::NoConsumerKey(_) => "NoKey",
        ProducerError::NoAssignedConsumer(_) => "NoAssigned",
        ProducerError::ResponsingError(_) => "Resp",
        ProducerError::BeaconEmitterError(_) => "Beacon",
        ProducerError::ConsumerError(_) => "Consumer",
        ProducerError::ConnectionError(_) => "Connection",
        ProducerError::ServerError(_) => "Server",
        _ => "Other",
    };
    rec(Ev::PError { cx: uuid.and_then(|u| simworld::cx_of(&u)), class, what: error.to_string(), id: identification.map(crate::app::id_v) });
    let fail = simworld::with(|w| {
        let f = w.observer_fail;
        w.rng.chance(f)
    });
    if fail {
        simworld::fault("error observer fails");
        Err(String::from("error observer failed"))
    } else {
        Ok(())
    }
}
