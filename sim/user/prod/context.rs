use super::implementation::consumer::identification::Identification;

pub struct Context {
    /// identities met so far, kept to change them later from handlers of other clients
    pub kept: Vec<Identification>,
}

impl Context {
    pub fn new() -> Self {
        Self { kept: vec![] }
    }
}
