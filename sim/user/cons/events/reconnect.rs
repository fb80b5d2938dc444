use super::Context;

pub async fn handler(timeout: u64, context: &mut Context) -> bool {
    crate::app::reconnect(context.c, timeout).await
}
