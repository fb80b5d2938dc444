use super::Context;

pub async fn handler(timeout: u64, _context: &mut Context) -> bool {
    crate::app::log(format!("consumer: reconnect? {}", timeout));
    !crate::app::fails(crate::app::RECONNECT)
}
